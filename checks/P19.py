"""Arina 4D-STEM files."""
from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "h5py is trusted for storage: the real h5py runs on a scratch file, symbolic contents are kept beside it; the plain h5py on replay",
    "sums of pixels stay within the data type (binning of integers) and flatfields are concrete",
]
F = ["rsciio.arina._api." + n for n in ("file_reader", "_process_dataset", "bin2D")]


def h_read(env, parts, shape, dtype, nav=None, rebin=1, out=None, flat=None, pixel=None, fail=False, suffix=True):
    import h5py

    from rsciio.arina import file_reader

    h, w = shape
    lo, hi = None, None
    if dtype == "uint32" and (out is None):
        lo, hi = 0, 65535
    name = "s_master.h5" if suffix else "s.h5"
    f = h5py.File(env.path(name), "w")
    g = f.require_group("entry/data")
    frames = []
    order = list(range(len(parts)))[::-1]
    arrs = [env.array("d%d" % i, (n, h, w), dtype, lo, hi) if lo is not None else env.array("d%d" % i, (n, h, w), dtype) for i, n in enumerate(parts)]
    for i in order:  # written in another order than named
        g.create_dataset("data_%06d" % (i + 1), data=arrs[i])
    for a in arrs:
        frames += [a[i].astype("int64") for i in range(a.shape[0])]
    f.close()
    if pixel is not None:
        with h5py.File(env.path("s.h5"), "w") as m:
            m.require_group("STEM Metadata").attrs["Pixel Size"] = np.array([pixel])
    n = len(frames)
    ff = None if flat is None else np.array(flat, dtype=float)
    kw = {}
    if out:
        kw["dtype"] = out
    res, err = env.attempt(lambda: file_reader(env.path(name), navigation_shape=nav, rebin_diffraction=rebin, flatfield=None if ff is None else ff.copy(), **kw))
    if fail:
        env.check(isinstance(err, ValueError), "shapes which do not fit are refused")
        env.cover("read")
        return
    if err is not None:
        raise err
    s = res[0]
    if nav is None:
        want = (int(n**0.5 + 1e-9),) * 2
    elif isinstance(nav, int):
        want = (nav, n // nav)
    else:
        want = tuple(n // [i for i in nav if i != "auto"][0] if i == "auto" else i for i in nav)
    d = env.nd(s["data"])
    sh = want + (h // rebin, w // rebin)
    env.check(tuple(int(i) for i in d.shape) == sh, "shape")
    odt = np.dtype("float32") if flat is not None else np.dtype(out) if out else np.dtype("uint16" if dtype == "uint32" else dtype)
    env.check(np.dtype(s["data"].dtype) == odt, "data type")
    d = d.reshape((n,) + sh[2:])
    good = []
    for k, a in enumerate(frames):
        for y in range(h // rebin):
            for x in range(w // rebin):
                if flat is not None:
                    continue
                if rebin == 1:
                    good.append(d[k, y, x] == a[y, x])
                else:
                    t = sum(a[y * rebin + j, x * rebin + i] for j in range(rebin) for i in range(rebin))
                    if odt.kind == "f":
                        good.append(d[k, y, x] * (rebin * rebin) == t)
                    else:
                        good.append(d[k, y, x] == t // (rebin * rebin))
    if flat is not None:
        cf = np.median(ff) / np.where(ff == 0, np.median(ff), ff)
        for k, a in enumerate(frames):
            fa = a.astype("float32")
            for y in range(h // rebin):
                for x in range(w // rebin):
                    v = [fa[y * rebin + j, x * rebin + i] * cf[y * rebin + j, x * rebin + i] for j in range(rebin) for i in range(rebin)]
                    if rebin == 1:
                        good.append(d[k, y, x] == v[0])
                    else:
                        good.append(d[k, y, x] * (rebin * rebin) == sum(v))
    env.check(env.all(*good), "every pixel of every frame")
    axes_match(env, s)
    sc, u = (1.0, "1") if pixel is None else (pixel * 10, "A")
    env.check([(a["name"], a["scale"], a["units"], a["offset"]) for a in s["axes"]] == [("x", sc, u, 0.0), ("y", sc, u, 0.0), ("qx", 1.0, "1", 0.0), ("qy", 1.0, "1", 0.0)], "axes")
    env.cover("read")


def h_missing(env):
    from rsciio.arina import file_reader

    r, err = env.attempt(lambda: file_reader(env.path("none_master.h5")))
    env.check(isinstance(err, FileNotFoundError), "a missing file is reported")
    r, err = env.attempt(lambda: file_reader(env.path("none_master.h5"), lazy=True))
    env.check(isinstance(err, NotImplementedError), "lazy reading is refused")
    env.cover("read")


def harnesses(tier):
    hs = []
    B = "every pixel; the shapes, data types and flatfields named"

    def add(nm, **k):
        hs.append(H(nm, h_read, k, 120, F, B, ["read"]))

    for dt in ("uint8", "uint16", "uint32", "int32"):
        for sh in ((2, 2), (2, 3), (3, 2)):
            add("%s %s" % (dt, sh), parts=(3, 1), shape=sh, dtype=dt)
    for nav in ((2, 3), (3, 2), (1, 6), (6, 1), ("auto", 2), ("auto", 3), (2, "auto"), (3, "auto"), 2, 3, 1):
        add("nav %s" % (nav,), parts=(2, 3, 1), shape=(1, 2), dtype="uint16", nav=nav)
    add("parts of any length", parts=(3, 1, 2), shape=(1, 2), dtype="uint16", nav=(3, 2))
    add("parts of any length rebin", parts=(1, 3, 1, 1), shape=(2, 2), dtype="uint8", nav=(3, 2), rebin=2, out="float64")
    for nav in (None, (2, 2), (4, "auto"), 5):
        add("unfit %s" % (nav,), parts=(2, 4), shape=(1, 2), dtype="uint16", nav=nav, fail=True)
    for sh in ((2, 2), (4, 2), (2, 4), (4, 4)):
        for dt, out in (("uint16", "float64"), ("uint8", "uint16"), ("uint32", "float64")):
            add("rebin %s %s %s" % (sh, dt, out), parts=(1,), shape=sh, dtype=dt, rebin=2, out=out)
    add("rebin 3", parts=(1,), shape=(3, 6), dtype="uint8", rebin=3, out="float64")
    for out in ("uint32", "float32", "float64", "int64"):
        add("as " + out, parts=(2, 2), shape=(2, 3), dtype="uint16", out=out)
    add("wide", parts=(1,), shape=(2, 2), dtype="uint32", out="uint32")
    for px in (None, 0.0, 0.25, 3.0):
        add("pixel %s" % px, parts=(4,), shape=(1, 2), dtype="uint16", pixel=px)
    add("other name", parts=(4,), shape=(1, 2), dtype="uint16", suffix=False)
    for sh, ff in (((2, 2), [[1, 2], [4, 0]]), ((1, 3), [[2, 4, 1]]), ((2, 1), [[2], [4]])):
        add("flat %s" % (sh,), parts=(1, 3), shape=sh, dtype="uint8", flat=ff)
        add("flat %s uint32" % (sh,), parts=(1,), shape=sh, dtype="uint16", flat=ff)
    add("flat rebin", parts=(1,), shape=(2, 4), dtype="uint8", flat=[[1, 2, 2, 2], [4, 0, 2, 2]], rebin=2)
    hs.append(H("missing", h_missing, {}, 60, F, B, ["read"]))
    return hs
