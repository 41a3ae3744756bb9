"""NumPy .npy files."""
from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "the header of .npy files is written and parsed by numpy itself, the values beside it are symbolic",
    "np.memmap is modelled as a view of the file's bytes from the offset; the operating system's mapping on replay",
]
F = ["rsciio.numpy._api.file_reader", "rsciio.numpy._api.file_writer", "rsciio.numpy._api.inspect_npy_file", "rsciio.utils._tools.inspect_npy_bytes", "rsciio.utils._distributed.memmap_distributed"]


def npy(env, a, order, version, name="a.npy"):
    """a file as numpy writes it"""
    import io

    dt = np.dtype(a.dtype)
    b = io.BytesIO()
    np.lib.format.write_array_header_1_0(b, {"descr": np.lib.format.dtype_to_descr(dt), "fortran_order": order == "F", "shape": tuple(a.shape)}) if version == 1 else np.lib.format.write_array_header_2_0(b, {"descr": np.lib.format.dtype_to_descr(dt), "fortran_order": order == "F", "shape": tuple(a.shape)})
    head = list(b.getvalue())
    if version == 3:
        head[6] = 3
    return env.file(name, head + list(env.cells(a.T if order == "F" else a)))


def compare(env, out, a, nav):
    env.check(len(out) == 1, "one signal")
    s = out[0]
    sh = tuple(i for i in a.shape if i != 1)
    d = env.nd(s["data"])
    env.check(tuple(d.shape) == sh, "shape without dimensions of length 1")
    env.check(np.dtype(s["data"].dtype).newbyteorder("=") == np.dtype(a.dtype).newbyteorder("="), "data type")
    env.check(env.same_array(d.astype(np.dtype(a.dtype).newbyteorder("=")), a.reshape(sh).astype(np.dtype(a.dtype).newbyteorder("="))), "every value")
    axes_match(env, s)
    env.check([x["index_in_array"] for x in s["axes"]] == list(range(len(sh))), "order of the axes")
    env.check([x["navigate"] for x in s["axes"]] == [i in nav for i, n in enumerate(a.shape) if n != 1], "navigation axes asked for")
    env.check(all((x["scale"], x["offset"], x["units"], x["name"]) == (1.0, 0.0, "", "") for x in s["axes"]), "axes in pixels")


def h_rt(env, shape, dtype, order, lazy, chunks="auto"):
    from rsciio.numpy import file_reader, file_writer

    a = env.array("a", shape, dtype)
    b = a.T.copy().T if order == "F" else a[..., ::-1][..., ::-1] if order == "view" and len(shape) else a
    file_writer(env.path("a.npy"), {"data": b})
    compare(env, file_reader(env.path("a.npy"), lazy=lazy, chunks=chunks), a, ())
    env.cover("rt")


def h_read(env, shape, dtype, order, lazy, version=1, nav=None, chunks="auto"):
    from rsciio.numpy import file_reader

    a = env.array("a", shape, dtype)
    f = npy(env, a, order, version)
    compare(env, file_reader(f, lazy=lazy, chunks=chunks, **({} if nav is None else {"navigation_axes": nav})), a, nav or ())
    env.cover("rt")


def h_lazy_write(env):
    import dask.array as da

    from rsciio.numpy import file_writer

    r, e = env.attempt(lambda: file_writer(env.path("b.npy"), {"data": da.zeros((2, 2))}))
    env.check(isinstance(e, TypeError), "lazy signals are refused")
    import os

    env.check(not os.path.exists(env.path("b.npy")), "and nothing is written")
    env.cover("rt")


def h_inspect(env, shape, dtype, order, version):
    from rsciio.numpy._api import inspect_npy_file

    a = env.array("a", shape, dtype)
    f = npy(env, a, order, version)
    off, sh, dt = inspect_npy_file(f)[:3]
    n = prod(shape) * np.dtype(dtype).itemsize
    env.check((off, tuple(sh), np.dtype(dt)) == (len(env.read_file(f)) - n, tuple(shape), np.dtype(dtype)), "where the data start, their shape and type")
    env.cover("rt")


def harnesses(tier):
    hs = []
    B = "every value; the shapes, data types, orders and chunks named"
    dts = ["u1", "<u2", ">u2", "<i4", ">i4", "<u8", "<f4", ">f4", "<f8", "<c8", "?", "i1", "<i8"]
    for lz in (False, True):
        for o in ("C", "F"):
            t = " %s%s" % (o, " lazy" * lz)
            for d in dts:
                hs.append(H("write %s%s" % (d, t), h_rt, dict(shape=(2, 3), dtype=d, order=o, lazy=lz), 60, F, B, ["rt"]))
                hs.append(H("read %s%s" % (d, t), h_read, dict(shape=(3, 2), dtype=d, order=o, lazy=lz), 60, F, B, ["rt"]))
            for sh in ((4,), (1, 4), (4, 1), (2, 1, 3), (2, 3, 2), (1, 2, 3, 1), (2, 2, 2, 2), (1,), (1, 1)):
                hs.append(H("write %s%s" % (sh, t), h_rt, dict(shape=sh, dtype="<u2", order=o, lazy=lz), 60, F, B, ["rt"]))
                hs.append(H("read %s%s" % (sh, t), h_read, dict(shape=sh, dtype=">i2", order=o, lazy=lz), 60, F, B, ["rt"]))
            for v in (1, 2, 3):
                hs.append(H("version %d%s" % (v, t), h_read, dict(shape=(2, 3), dtype="<i2", order=o, lazy=lz, version=v), 60, F, B, ["rt"]))
            for nav in ([0], [1], [0, 1], [2], [0, 2]):
                hs.append(H("navigation %s%s" % (nav, t), h_read, dict(shape=(2, 3, 2), dtype="<i2", order=o, lazy=lz, nav=nav), 60, F, B, ["rt"]))
                hs.append(H("navigation %s with 1%s" % (nav, t), h_read, dict(shape=(2, 1, 3), dtype="u1", order=o, lazy=lz, nav=nav), 60, F, B, ["rt"]))
            if lz:
                for ch in ((1, 1, 1), (2, 2, 1), ((1, 1), (1, 2), (2,)), "auto", (-1, 1, 2)):
                    hs.append(H("chunks %s%s" % (ch, t), h_read, dict(shape=(2, 3, 2), dtype="<i2", order=o, lazy=lz, chunks=ch), 60, F, B, ["rt"]))
        hs.append(H("write view%s" % (" lazy" * lz), h_rt, dict(shape=(2, 3), dtype="<u2", order="view", lazy=lz), 60, F, B, ["rt"]))
    for v in (1, 2, 3):
        hs.append(H("inspect %d" % v, h_inspect, dict(shape=(2, 3), dtype=">u2", order="C", version=v), 60, F, B, ["rt"]))
    hs.append(H("lazy signal", h_lazy_write, {}, 60, F, B, ["rt"]))
    return hs
