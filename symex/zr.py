"""Zarr stores during symbolic execution: the real zarr on a scratch store keeps
names, shapes, types, errors and ordering; symbolic contents of arrays and
attributes are kept beside it, keyed by store and path."""

import os

import numpy as np

from . import arr as A
from .core import CTX, SymInt, SymBool, SymFloat, SymFrac, is_sym
from .h5 import arr, has

DATA = {}
ATTR = {}


def _skey(store):
    for _ in range(5):
        n = getattr(store, "_mutable_mapping", None)
        if n is None:
            break
        store = n
    p = getattr(store, "path", None) or getattr(store, "dir_path", lambda: None)()
    return os.path.abspath(str(p)) if p else id(store)


def key(a):
    return (_skey(a.store), a.path)


def _akey(at):
    return (_skey(at.store), at.key)


def reset():
    DATA.clear()
    ATTR.clear()


def install():
    import zarr
    from zarr import attrs as za, core as zc, hierarchy as zh

    if getattr(zarr, "_symex", False):
        return
    zarr._symex = True

    create = zh.Group._create_dataset_nosync

    def create_dataset(self, name, data=None, **k):
        if CTX.active:
            if has(data):
                d = arr(data)
                if k.get("dtype") is not None:
                    d = d.astype(k["dtype"])
                k["dtype"] = d.dtype
                k.setdefault("shape", d.shape)
                a = create(self, name, **k)
                DATA[key(a)] = d.copy()
                return a
            a = create(self, name, data=data, **k)
            DATA.pop(key(a), None)
            return a
        return create(self, name, data=data, **k)

    zh.Group._create_dataset_nosync = create_dataset

    get = zc.Array.__getitem__

    def aget(self, sel):
        if CTX.active:
            o = DATA.get(key(self))
            if o is not None:
                ref = get(self, sel)
                if isinstance(sel, str):
                    return o[sel]
                if isinstance(sel, tuple) and len(sel) == 1:
                    sel = sel[0]
                r = o[sel]
                if isinstance(r, (A.SymArray, A.SymRec)):
                    r = r.copy()
                    if isinstance(ref, np.ndarray) and r.shape != ref.shape:
                        r = r.reshape(ref.shape)
                return r
        return get(self, sel)

    zc.Array.__getitem__ = aget
    set_ = zc.Array.__setitem__

    def aset(self, sel, val):
        if CTX.active:
            k = key(self)
            if has(val) or k in DATA:
                v = arr(val)
                if tuple(np.shape(v)) != ():
                    # the real library raises for shapes that do not fit
                    set_(self, sel, np.zeros(v.shape, self.dtype))
                o = DATA.get(k)
                if o is None:
                    o = arr(get(self, ()))
                if isinstance(sel, tuple) and len(sel) == 1:
                    sel = sel[0]
                if isinstance(o, A.SymRec) or isinstance(v, A.SymRec):
                    o = v.copy()
                else:
                    v = v.astype(self.dtype)
                    if v.shape == self.shape and (sel == () or sel is Ellipsis or sel == slice(None)):
                        o = v.copy()
                    else:
                        o[sel] = v
                DATA[k] = o
                return
        return set_(self, sel, val)

    zc.Array.__setitem__ = aset
    arr_ = zc.Array.__array__

    def array_(self, *a, **k):
        if CTX.active and key(self) in DATA:
            return self[...]
        return arr_(self, *a, **k)

    zc.Array.__array__ = array_

    sset = za.Attributes.__setitem__

    def attr_set(self, name, value):
        if CTX.active:
            t = ATTR.setdefault(_akey(self), {})
            t.pop(name, None)
            if has(value):
                if isinstance(value, SymBool):
                    ph = False
                elif isinstance(value, SymInt):
                    ph = 0
                elif isinstance(value, (SymFloat, SymFrac)):
                    ph = 0.0
                else:
                    raise TypeError("Object is not JSON serializable")
                sset(self, name, ph)
                t[name] = value
                return
        return sset(self, name, value)

    za.Attributes.__setitem__ = attr_set
    update = za.Attributes.update

    def attr_update(self, *a, **k):
        if CTX.active:
            d = dict(*a, **k)
            for n, v in d.items():
                self[n] = v
            return
        return update(self, *a, **k)

    za.Attributes.update = attr_update
    asdict = za.Attributes.asdict

    def attr_asdict(self):
        d = asdict(self)
        if CTX.active and ATTR:
            t = ATTR.get(_akey(self))
            if t:
                d = {k: t.get(k, v) for k, v in d.items()}
        return d

    za.Attributes.asdict = attr_asdict
