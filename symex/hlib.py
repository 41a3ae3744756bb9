"""Helpers shared by the harnesses (no engine imports: also runs on replay)."""

import copy
import itertools

import numpy as np


def axis(name, size, navigate, i, scale=1.0, offset=0.0, units="nm", **kw):
    return dict(name=name, size=size, scale=scale, offset=offset, units=units,
                navigate=navigate, index_in_array=i, **kw)


def signal(data, nav, scales=None, offsets=None, units=None, names=None, title="t", signal_type="", om=None, md=None, lazy=False):
    """signal dictionary: the first ``nav`` axes are navigation axes"""
    n = data.ndim
    names = names or ["w", "z", "y", "x"][-n:] if n <= 4 else [f"a{i}" for i in range(n)]
    axes = [
        axis(names[i], data.shape[i], i < nav, i,
             1.0 if scales is None else scales[i],
             0.0 if offsets is None else offsets[i],
             "nm" if units is None else units[i])
        for i in range(n)
    ]
    m = {"General": {"title": title}, "Signal": {"signal_type": signal_type}, "Sample": {"note v1.2": {"no": 3}}}
    if md:
        for k, v in md.items():
            m.setdefault(k, {}).update(v)
    return dict(data=data, axes=axes, metadata=m, original_metadata=om or {},
                attributes={"_lazy": lazy}, package="", package_version="")


def dget(d, path, default=None):
    for k in path.split("."):
        try:
            d = d[k]
        except (KeyError, TypeError, IndexError):
            return default
    return d


def to_bytes_list(s):
    return list(s if isinstance(s, (bytes, bytearray)) else s.encode("latin-1"))


def prod(xs):
    n = 1
    for x in xs:
        n *= x
    return n


def axes_match(env, out, ndim=None):
    """every axis size equals the data shape, indices are 0..n-1"""
    shape = out["data"].shape
    axes = out["axes"]
    env.check(len(axes) == len(shape), "one axis per data dimension")
    for i, a in enumerate(axes):
        idx = a.get("index_in_array", i)
        n = len(a["axis"]) if "axis" in a else a["size"]
        env.check(n == shape[idx], "axis size equals data shape")


def cells_at(env, cells, off, n):
    return cells[off:off + n]


def put(cells, off, b):
    """write bytes b into list cells at off, growing with zeros"""
    b = list(b)
    if len(cells) < off + len(b):
        cells.extend([0] * (off + len(b) - len(cells)))
    cells[off:off + len(b)] = b
    return cells


def sparse_stub(env):
    """sparse arrays as dense ones"""
    if not env.symbolic:
        return
    import importlib

    m = importlib.import_module("rsciio.utils._fei_stream_readers")
    np_ = env.numpy()

    class Dense:
        def __init__(self, coords, data, shape):
            a = np_.zeros(tuple(int(i) for i in shape), dtype=data.dtype)
            for k in range(len(data)):
                i = tuple(coords[j][k] for j in range(len(shape)))
                a[i] += data[k]
            self.a = a

        def compute(self, **k):
            return self.a

        @property
        def shape(self):
            return self.a.shape

        @property
        def dtype(self):
            return self.a.dtype

        @property
        def ndim(self):
            return self.a.ndim

    m.DenseSliceCOO = Dense
    import dask.array as da

    if not getattr(da, "_dense_stub", False):
        da._dense_stub = True
        orig = da.from_array

        def from_array(x, *a, **k):
            return x.a if type(x).__name__ == "Dense" else orig(x, *a, **k)

        da.from_array = from_array
