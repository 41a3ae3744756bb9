"""HDF5 files during symbolic execution: the real h5py on a scratch file keeps
names, shapes, types, errors and ordering; symbolic contents of datasets and
attributes are kept beside it, keyed by file and object address."""

import os

import numpy as np

from . import arr as A
from .core import CTX, SymInt, SymBool, SymFloat, SymFrac, SymComplex, is_sym, mkint, to_float

DATA = {}
ATTR = {}


def _key(o):
    import h5py

    return (os.path.abspath(o.file.filename), h5py.h5o.get_info(o.id).addr)


def _akey(am):
    import h5py

    return (os.path.abspath(h5py.h5i.get_file_id(am._id).name.decode()), h5py.h5o.get_info(am._id).addr)


def reset():
    import sys

    DATA.clear()
    ATTR.clear()
    z = sys.modules.get("symex.zr")
    if z is not None:
        z.reset()
    h5py = sys.modules.get("h5py")
    if h5py is not None:
        for i in h5py.h5f.get_obj_ids(types=h5py.h5f.OBJ_FILE):
            try:
                while i.valid:
                    i.close()
            except Exception:
                pass


def _drop(fn):
    fn = os.path.abspath(fn)
    for t in (DATA, ATTR):
        for k in [k for k in t if k[0] == fn]:
            del t[k]


def has(x):
    if isinstance(x, (A.SymArray, A.SymRec)) or is_sym(x):
        return True
    return isinstance(x, (list, tuple)) and A.has_sym(x)


def arr(x, dt=None):
    """a SymArray of x"""
    if isinstance(x, (A.SymArray, A.SymRec)):
        return x
    if is_sym(x):
        x = A.mk(np.array(x, dtype=object), dt if dt is not None else A.guess_dtype(x))
        return x
    if isinstance(x, np.ndarray) and not x.dtype.names:
        r = np.empty(x.shape, object)
        r[...] = x.tolist() if x.dtype.kind not in "fc" else x.tolist()
        return A.mk(r, x.dtype)
    return A.NP.array(x)


def install():
    import h5py
    from h5py._hl import attrs as ha, dataset as hd, files as hf, group as hg

    if getattr(h5py, "_symex", False):
        return
    h5py._symex = True

    f_init = hf.File.__init__

    def file_init(self, name, mode="r", *a, **k):
        if CTX.active and mode in ("w", "w-", "x") and isinstance(name, (str, os.PathLike)):
            _drop(os.fspath(name))
        return f_init(self, name, mode, *a, **k)

    hf.File.__init__ = file_init

    create = hg.Group.create_dataset

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if CTX.active and hasattr(data, "dask") and getattr(data, "_meta", None) is not None:
            data = data.compute(scheduler="synchronous")
        if CTX.active and data is not None and has(data):
            d = arr(data)
            if dtype is not None:
                d = d.astype(dtype)
            ds = create(self, name, shape=d.shape if shape is None else shape, dtype=d.dtype if dtype is None else dtype, **k)
            DATA[_key(ds)] = d.copy().reshape(ds.shape)
            return ds
        ds = create(self, name, shape=shape, dtype=dtype, data=data, **k)
        if CTX.active:
            DATA.pop(_key(ds), None)
        return ds

    hg.Group.create_dataset = create_dataset
    cgroup = hg.Group.create_group

    def create_group(self, *a, **k):
        g = cgroup(self, *a, **k)
        if CTX.active:
            ATTR.pop(_key(g), None)
        return g

    hg.Group.create_group = create_group

    setitem_g = hg.Group.__setitem__

    def gset(self, name, obj):
        if CTX.active and has(obj):
            self.create_dataset(name, data=obj)
            return
        return setitem_g(self, name, obj)

    hg.Group.__setitem__ = gset

    get = hd.Dataset.__getitem__

    def dget(self, args, *a, **k):
        if CTX.active:
            o = DATA.get(_key(self))
            if o is not None:
                ref = get(self, args, *a, **k)
                if isinstance(args, str):
                    args = (args,)
                if args == () or args is Ellipsis or (isinstance(args, tuple) and len(args) == 1 and args[0] is Ellipsis):
                    r = o[()] if not isinstance(o, A.SymRec) else o
                else:
                    r = o[args[0] if isinstance(args, tuple) and len(args) == 1 else args]
                if isinstance(r, A.SymArray):
                    r = r.copy()
                    if isinstance(ref, np.ndarray) and r.shape != ref.shape:
                        r = r.reshape(ref.shape)
                return r
        return get(self, args, *a, **k)

    hd.Dataset.__getitem__ = dget
    set_ = hd.Dataset.__setitem__

    def dset(self, args, val):
        if CTX.active:
            k = _key(self)
            if has(val) or k in DATA:
                v = arr(val)
                o = DATA.get(k)
                if o is None:
                    o = arr(get(self, ()))
                if isinstance(args, tuple) and len(args) == 1:
                    args = args[0]
                if isinstance(o, A.SymRec) or isinstance(v, A.SymRec):
                    o = v.copy()
                else:
                    v = v.astype(self.dtype)
                    if v.shape == self.shape and (args == () or args is Ellipsis or args == slice(None)):
                        o = v.copy()
                    else:
                        o[args] = v
                DATA[k] = o
                return
        return set_(self, args, val)

    hd.Dataset.__setitem__ = dset
    wd = hd.Dataset.write_direct

    def write_direct(self, source, source_sel=None, dest_sel=None):
        if CTX.active and (has(source) or _key(self) in DATA):
            if not source.flags.c_contiguous:
                raise TypeError("Array must be C-contiguous")
            if source_sel is not None or dest_sel is not None or source.shape != self.shape:
                raise A.Unsupported("write_direct selection")
            self[...] = source
            return
        return wd(self, source, source_sel, dest_sel)

    hd.Dataset.write_direct = write_direct
    rd = hd.Dataset.read_direct

    def read_direct(self, dest, source_sel=None, dest_sel=None):
        if CTX.active and _key(self) in DATA:
            src = self[source_sel if source_sel is not None else ()]
            if not isinstance(dest, A.SymArray):
                raise A.Unsupported("read_direct into a plain array")
            dest[dest_sel if dest_sel is not None else Ellipsis] = src
            return
        return rd(self, dest, source_sel, dest_sel)

    hd.Dataset.read_direct = read_direct
    arr_ = hd.Dataset.__array__

    def array_(self, dtype=None, copy=True):
        if CTX.active and _key(self) in DATA:
            r = self[()]
            return r if dtype is None else r.astype(dtype)
        return arr_(self, dtype, copy) if copy is not None else arr_(self, dtype)

    hd.Dataset.__array__ = array_

    acreate = ha.AttributeManager.create

    def attr_create(self, name, data, shape=None, dtype=None):
        if CTX.active:
            t = ATTR.setdefault(_akey(self), {})
            t.pop(name, None)
            if has(data):
                if isinstance(data, SymBool):
                    ph = np.bool_(False)
                elif isinstance(data, SymInt):
                    ph = np.int64(0)
                elif isinstance(data, (SymFloat, SymFrac)):
                    ph = np.float64(0)
                elif isinstance(data, SymComplex):
                    ph = np.complex128(0)
                else:
                    data = arr(data)
                    ph = np.zeros(data.shape, data.dtype)
                if dtype is not None and is_sym(data):
                    data = A.cast_elem(data, np.dtype(dtype))
                    ph = np.dtype(dtype).type(0)
                acreate(self, name, ph, shape, dtype)
                t[name] = data
                return
        return acreate(self, name, data, shape, dtype)

    ha.AttributeManager.create = attr_create
    aget = ha.AttributeManager.__getitem__

    def attr_get(self, name):
        if CTX.active and ATTR:
            t = ATTR.get(_akey(self))
            if t and name in t:
                r = t[name]
                return r.copy() if isinstance(r, A.SymArray) else r
        return aget(self, name)

    ha.AttributeManager.__getitem__ = attr_get
    adel = ha.AttributeManager.__delitem__

    def attr_del(self, name):
        if CTX.active and ATTR:
            ATTR.get(_akey(self), {}).pop(name, None)
        return adel(self, name)

    ha.AttributeManager.__delitem__ = attr_del


def install_dask():
    """blocks of symbolic datasets must not be coerced to plain arrays"""
    import dask.array as da
    import dask.array.core as dc

    if getattr(da, "_symex", False):
        return
    da._symex = True
    orig = dc.from_array

    def from_array(x, *a, **k):
        if CTX.active and "asarray" not in k and is_dataset(x):
            k["asarray"] = False
            k.setdefault("meta", np.empty((0,) * len(x.shape), x.dtype) if x.dtype.names is None else None)
        return orig(x, *a, **k)

    dc.from_array = from_array
    da.from_array = from_array


def is_dataset(x):
    import sys

    h = sys.modules.get("h5py")
    if h is not None and isinstance(x, h.Dataset):
        return True
    z = sys.modules.get("zarr")
    return z is not None and isinstance(x, z.Array)


def overlaid(x):
    import sys

    z = sys.modules.get("zarr")
    if z is not None and isinstance(x, z.Array):
        from . import zr

        return zr.key(x) in zr.DATA
    return x.dtype.hasobject or _key(x) in DATA
