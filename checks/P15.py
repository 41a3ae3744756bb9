"""EMD files of the NCEM (Berkeley) kind."""
from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "h5py is trusted for storage, types and names: the real h5py runs on a scratch file, symbolic contents are kept beside it; the plain h5py on replay",
    "titles hold no slash; the scale is recovered from two points of the axis, so up to the rounding of offset + scale",
]
FN = ["rsciio.emd._emd_ncem.EMD_NCEM"]


def close(env, got, want):
    if env.is_sym(got) or env.is_sym(want):
        return env.same(got, want)
    return got == want or abs(got - want) <= 1e-9 * abs(want)


def h_rt(env, shape, dtype, nav, lazy=False, wlazy=False, chunks=None, title="an image", names=None, units=None):
    from rsciio.emd import file_reader, file_writer

    data = env.array("d", shape, dtype)
    n = len(shape)
    off = [env.float("off%d" % i) for i in range(n)]
    sc = [env.float("sc%d" % i) for i in range(n)]
    s = signal(data, nav, scales=sc, offsets=off, units=units or ["nm"] * n, names=names, title=title, lazy=wlazy)
    s["metadata"]["Signal"]["signal_type"] = "EDS_TEM"
    if wlazy:
        import dask.array as da

        s["data"] = da.from_array(data, chunks=tuple(max(1, k // 2) for k in shape), asarray=False)
    v = {"i": env.int("om_i", -(2**40), 2**40), "f": env.float("om_f"), "t": "text µ"}
    s["original_metadata"] = {"microscope": {"HT": v["i"], "name": v["t"]}, "user": {"f": v["f"]}, "other": {"x": 1}}
    p = env.path("a.emd")
    file_writer(p, s, chunks=chunks)
    out = file_reader(p, lazy=lazy)
    env.check(len(out) == 1, "one signal")
    o = out[0]
    d = env.nd(o["data"])
    env.check(tuple(d.shape) == tuple(shape), "shape")
    env.check(env.same_array(d, data), "every value and the data type")
    axes_match(env, o)
    for i, a in enumerate(o["axes"]):
        env.check(a["index_in_array"] == i, "order of the axes")
        env.check(env.same(a["offset"], off[i]), "offset of each axis")
        env.check(env.same(a["scale"], (off[i] + sc[i]) - off[i]), "scale of each axis")
        env.check(a["name"] == ((names or ["w", "z", "y", "x"][-n:])[i] or ""), "name of each axis")
        u = (units or ["nm"] * n)[i]
        env.check(a["units"] == {None: "", "1/nm": "1 / nm", "<undefined>": "<undefined>"}.get(u, u), "units of each axis")
    env.check(o["metadata"]["General"]["title"] == (title or "__unnamed__"), "title")
    om = o["original_metadata"]
    env.check(om["microscope"]["name"] == "text µ" and env.same(om["microscope"]["HT"], v["i"]) and env.same(om["user"]["f"], v["f"]), "microscope, sample, user and comments")
    env.check(om["sample"] == {} and om["comments"] == {} and om["EMD_version"] == "0.2", "version")
    env.cover("read back")


def group(env, f, path, name, arr, dims, start=1, attrs=None):
    import h5py

    g = f.require_group(path)
    g.attrs["emd_group_type"] = 1
    for k, v in (attrs or {}).items():
        g.attrs[k] = v
    g.create_dataset(name, data=arr)
    for k, (vals, nm, un) in enumerate(dims):
        d = g.create_dataset("dim%d" % (k + start), data=vals)
        if nm is not None:
            d.attrs["name"] = nm
        if un is not None:
            d.attrs["units"] = un
    return g


def h_read(env, kind, lazy):
    """files of other programs, with several data sets"""
    import h5py

    from rsciio.emd import file_reader

    p = env.path("b.emd")
    f = h5py.File(p, "w")
    kw = {}
    want = []  # title, array, axes [(offset, scale, name, units)]
    root = env.choose("version in", ["root", "group"])
    if root == "root":
        f.attrs["version_major"], f.attrs["version_minor"] = 0, 2
    else:
        g = f.require_group("data")
        g.attrs["version_major"], g.attrs["version_minor"] = 0, 3
    o = [env.float("o%d" % i) for i in range(8)]
    A = [([o[0], o[0] + 2.0], "x", "[n_m]"), ([1.0, 1.5, 2.0], "y", b"nm"), ([0.0, 0.25], "z", "A^-1")]
    X = [(o[0], ("d", o[0], 2.0), "x", "nm"), (1.0, 0.5, "y", "nm"), (0.0, 0.25, "z", "1 / Å")]
    if kind == "names":  # names which are prefixes of one another
        names = env.choose("names", [("a", "ab"), ("image_1", "image_10"), ("b/a", "b/a_2"), ("x", "y")])
        for i, n in enumerate(names):
            sh = (2, 3, 2)[: 3 - i] if env.choose("shapes", ["same", "other"]) == "other" else (2, 3)
            arr = env.array("d%d" % i, sh, "int16")
            group(env, f, "data/" + n, "data", arr, A[: len(sh)])
            want.append((n.split("/")[-1], arr.T, X[: len(sh)][::-1]))
    elif kind == "zero":  # dimensions numbered from 0 are in the order of the data
        arr = env.array("d", (2, 3, 2), "uint16")
        group(env, f, "root/cube", "data", arr, A, start=0)
        want.append(("cube", arr, X))
    elif kind == "single":
        arr = env.array("d", (1, 3), "uint16")
        group(env, f, "data/s", "data", arr, [([5.0], "x", "nm"), A[1]])
        want.append(("s", arr.T, [X[1], (5.0, 1.0, "x", "nm")]))
    elif kind == "path":
        for i, n in enumerate(("a", "b", "c")):
            arr = env.array("d%d" % i, (2, 3), "int16")
            group(env, f, "data/" + n, "data", arr, A[:2])
            want.append((n, arr.T, X[:2][::-1]))
        c = env.choose("path", ["str", "list", "reversed"])
        kw["dataset_path"] = {"str": "data/b/data", "list": ["data/a/data", "data/c/data"], "reversed": ["data/c/data", "data/b/data"]}[c]
        want = {"str": want[1:2], "list": [want[0], want[2]], "reversed": [want[2], want[1]]}[c]
    elif kind == "text":
        arr = env.array("d", (2, 2), "float32")
        group(env, f, "data/t", "data", arr, [(np.array([b"a", b"b"]), "element", None), A[0]])
        want.append(("t", arr.T, [X[0], (0, 1, "element", None)]))
    elif kind == "aux":
        arr = env.array("d", (2, 3), "float64")
        g = group(env, f, "data/t", "data", arr, A[:2])
        g.create_dataset("other", data=[1, 2, 3])
        f.create_dataset("nogroup/data", data=[1, 2, 3])
        want.append(("t", arr.T, X[:2][::-1]))
    f.close()
    out = file_reader(p, lazy=lazy, **kw)
    check(env, out, want)


def check(env, out, want, nav=None):
    env.check([s["metadata"]["General"]["title"] for s in out] == [w[0] for w in want], "every data set under its name")
    for s, (t, arr, axes) in zip(out, want):
        d = env.nd(s["data"])
        env.check(tuple(d.shape) == tuple(arr.shape), "shape")
        env.check(env.same_array(d, arr), "every value and the data type")
        axes_match(env, s)
        for a, x in zip(s["axes"], axes):
            env.check(env.same(a["offset"], x[0]) if env.is_sym(a["offset"]) else a["offset"] == x[0], "offset of each axis")
            if isinstance(x[1], tuple):
                env.check(env.same(a["scale"], (x[1][1] + x[1][2]) - x[1][1]), "scale of each axis")
            else:
                env.check(abs(a["scale"] - x[1]) < 1e-9, "scale of each axis")
            env.check((a["name"], a["units"]) == x[2:4], "name and units of each axis")
            if len(x) > 4:
                env.check(a["navigate"] == x[4], "kind of each axis")
    env.cover("read")


def h_prismatic(env, stack, lazy, n):
    import h5py

    from rsciio.emd import file_reader

    p = env.path("c.emd")
    f = h5py.File(p, "w")
    g = f.require_group("4DSTEM_simulation")
    g.attrs["version_major"], g.attrs["version_minor"] = 0, 5
    ns, st = env.choose("slices", [1, 3]), env.choose("thickness", [2.0, 0.5])
    zs = env.choose("start", [0.0, 4.0])
    m = f.require_group("4DSTEM_simulation/metadata/metadata_0/original/simulation_parameters")
    total = n * ns * st
    uniform = env.choose("uniform", [True, False])
    vals = {"ns": ns, "s": st, "zs": zs, "t": np.array([1, 1, 2]), "c": np.array([total / 2 if uniform else total * 3, 5.0, 5.0]), "a": "m", "px": env.float("px")}
    for k, v in vals.items():
        m.attrs[k] = v
    D = "4DSTEM_simulation/data/"
    dims2 = [([1.0, 1.5], "R_x", "[n_m]"), ([0.0, 0.25, 0.5], "R_y", "[n_m]")]
    dims4 = dims2 + [([0.0, 2.0], "Q_x", "[n_m^-1]"), ([0.0, 4.0], "Q_y", "[n_m^-1]")]
    arrs = {}
    for kind, dims, name, sh in (("datacubes/CBED_array_depth", dims4, "datacube", (2, 3, 2, 2)), ("realslices/annular_detector_depth", dims2, "realslice", (2, 3)), ("realslices/virtual_depth", dims2, "realslice", (2, 3))):
        for i in range(n):
            arr = arrs[kind, i] = env.array("%s%d" % (kind.split("/")[1], i), sh, "float32")
            group(env, f, D + kind + "%04d" % i, name, arr, dims)
    pot = env.array("pot", (2, 3), "float32")
    group(env, f, D + "realslices/ppotential", "realslice", pot, dims2)
    f.close()
    out = file_reader(p, lazy=lazy, stack_group=stack)
    want = []
    xr = [(1.0, 0.5, "R_x", "nm"), (0.0, 0.25, "R_y", "nm"), (0.0, 2.0, "Q_x", "1 / nm"), (0.0, 4.0, "Q_y", "1 / nm")]
    depth = (zs if zs else ns * st, ns * st) if uniform else (0, 1)
    NP = env.numpy()
    for kind, four in (("datacubes/CBED_array_depth", True), ("realslices/annular_detector_depth", False), ("realslices/virtual_depth", False)):
        ax = [x + (k < 2,) for k, x in enumerate(xr)] if four else [x + (False,) for x in xr[:2]][::-1]
        a = [arrs[kind, i] if four else arrs[kind, i].T for i in range(n)]
        t = kind.split("/")[1]
        if stack and n > 1:
            want.append((t.replace("_depth", ""), NP.stack(a), [depth + (t, "Å" if uniform else None, True)] + ax))
        else:
            for i in range(n):
                tt = t if stack else "%s%04d" % (t, i)
                want.append((tt.replace("_depth", ""), a[i], ax))
    at = [i for i, w in enumerate(want) if w[0].startswith("virtual")][0]  # in the order of the names
    want.insert(at, ("ppotential", pot.T, [x + (False,) for x in xr[:2]][::-1]))
    check(env, out, want)
    for s in out:
        cbed = "CBED" in s["metadata"]["General"]["title"]
        env.check(s["metadata"]["Signal"]["signal_type"] == ("electron_diffraction" if cbed else ""), "signal type")
        sp = s["original_metadata"]["simulation_parameters"]
        env.check(env.same(sp["realspacePixelSizeX"], vals["px"]) and sp["numSlices"] == ns and sp["algorithm"] == "m", "parameters of the simulation")


def harnesses(tier):
    hs = []
    B = "every value, offset and scale symbolic"

    def rt(name, **k):
        a = dict(shape=(2, 3), dtype="int16", nav=0)
        a.update(k)
        hs.append(H("round trip " + name, h_rt, a, 90, FN + ["rsciio.emd._api"], B, ["read back"]))

    for dt in ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float32", "float64", "complex64", "complex128", "bool", ">i2", ">f4"):
        rt(dt, dtype=dt)
        rt(dt + " lazy", dtype=dt, lazy=True)
    for sh in ((4,), (2, 1), (2, 3, 2), (1, 2, 3), (2, 2, 2, 2), (1,)):
        for nav in range(len(sh)):
            for lz, wl in ((False, False), (True, False), (False, True)):
                rt("%s nav %d%s%s" % (sh, nav, " lazy" * lz, " from lazy" * wl), shape=sh, nav=nav, lazy=lz, wlazy=wl)
    for ch in (True, (1, 2), (2, 3)):
        rt("chunks %s" % (ch,), chunks=ch)
    rt("untitled", title="")
    rt("title", title="map µ (1)")
    rt("names", names=["my axis", None])
    for u in ("µm", "1/nm", "", None, "keV", "eV", "s", "<undefined>"):
        rt("units %s" % u, units=[u, "nm"])
    for k in ("names", "zero", "single", "path", "text", "aux"):
        for lz in (False, True):
            hs.append(H("%s%s" % (k, " lazy" * lz), h_read, dict(kind=k, lazy=lz), 90, FN, B, ["read"]))
    for st in (True, False):
        for lz in (False, True):
            for n in (1, 2, 3):
                hs.append(H("prismatic stack %s lazy %s %d" % (st, lz, n), h_prismatic, dict(stack=st, lazy=lz, n=n), 120, FN, B, ["read"]))
    return hs
