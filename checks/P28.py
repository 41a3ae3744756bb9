"""NeXus files (HDF5): written and read back, and files of other programs."""
import datetime

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "h5py is trusted for storage: the real h5py runs on a scratch file, symbolic contents are kept beside it; the plain h5py on replay",
    "shapes, names, units, titles and the calibration of axes concrete (calibrations chosen by the solver); data, numbers of the metadata and arrays symbolic",
    "titles and names without slash; documented limits: axes which are not uniform come back as indices, the scale of axes of length 1 is not stored, text arrays come back as bytes, arrays of one element as numbers",
]
F = ["rsciio.nexus._api." + n for n in ("file_reader", "file_writer", "_write_signal", "_write_nexus_groups", "_write_nexus_attr", "_nexus_dataset_to_signal", "_get_nav_list", "_extract_hdf_dataset", "_find_data", "_load_metadata", "_parse_from_file", "_parse_to_file", "_is_linear_axis", "_is_numeric_data", "_find_search_keys_in_dict", "_getlink")]
STEPS = [1.0, 0.25, -0.5, 2e-10, -1.5e-9, 1e6]
STARTS = [0.0, -3.5, 1e-9]


class Shuffled(set):
    """a set which is iterated in an order chosen by the solver"""

    env = None

    def __iter__(self):
        items = sorted(set.__iter__(self))
        if not items:
            return iter(items)
        k = Shuffled.env.choose("order%d" % len(items), list(range(len(items))))
        return iter(items[k:][::-1] + items[:k])


def adversary(env):
    """iteration of sets in any order, as with hash seeds"""
    from rsciio.nexus import _api

    Shuffled.env = env
    _api.set = Shuffled


def near(a, b):
    return abs(float(a) - float(b)) <= 1e-6 * abs(float(b)) + 1e-15


def uax(name, n, navigate, scale=1.0, offset=0.0, units="nm", **kw):
    return dict(name=name, size=n, scale=scale, offset=offset, units=units, navigate=navigate, _type="UniformDataAxis", is_binned=False, **kw)


def sig(env, name, shape, nav, dtype="float32", scales=None, offsets=None, title="a title", units=None, names=None, md=None, om=None, lr=None, i0=0):
    data = env.array(name, shape, dtype)
    axes = [uax((names or "wzyx"[-len(shape):])[i], n, i < nav, (scales or [1.0] * 9)[i], (offsets or [0.0] * 9)[i], (units or ["nm", "s", "", "µm"])[i]) for i, n in enumerate(shape)]
    m = {"General": {"title": title, "date": "2020-01-02", "authors": "Someone"}, "Signal": {"signal_type": "EELS"}, "Sample": {"note v1.2": {"no": 3}}}
    m["General"].update((md or {}).pop("General", {}))
    m.update(md or {})
    d = dict(data=data, axes=axes, metadata=m, original_metadata=om or {}, attributes={"_lazy": False})
    if lr:
        d["learning_results"] = lr
    return d


def write(env, s, **kw):
    from rsciio.nexus import file_writer

    kw.setdefault("compression", None)
    file_writer(env.path("a.nxs"), copy.deepcopy(s) if isinstance(s, dict) and not env.symbolic else s, **kw)


def read(env, **kw):
    from rsciio.nexus import file_reader

    return file_reader(env.path("a.nxs"), **kw)


def check_data(env, s, d, lazy):
    env.check(hasattr(s["data"], "dask") == lazy, "dask arrays exactly when lazy")
    env.check(env.same_array(env.nd(s["data"]), env.nd(d)), "every value")


def check_axes(env, got, want):
    env.check(len(got) == len(want), "number of axes")
    for i, (a, b) in enumerate(zip(got, want)):
        env.check(a["index_in_array"] == i and a["size"] == b["size"] and bool(a["navigate"]) == b["navigate"], "size, place and kind of the axis")
        env.check(a.get("name") == b["name"] and a["units"] == b["units"], "name and units of the axis")
        env.check(near(a["offset"], b["offset"]), "offset of the axis")
        if b["size"] > 1:
            env.check(near(a["scale"], b["scale"]), "scale of the axis")


def tree_same(env, got, want, path=""):
    """a tree of metadata: groups, numbers, texts and arrays"""
    for k, v in want.items():
        env.check(k in got, "entry of the metadata")
        g = got[k]
        if isinstance(v, dict):
            env.check(isinstance(g, dict), "group of the metadata")
            tree_same(env, g, v)
        elif isinstance(v, str):
            env.check(g == v, "text of the metadata")
        elif isinstance(v, (list, tuple)) and v and isinstance(v[0], str):
            env.check([x.decode() if isinstance(x, bytes) else x for x in g] == list(v), "texts of the metadata")
        elif hasattr(v, "shape") or isinstance(v, (list, tuple)):
            env.check(env.same_array(g, np.array(v) if isinstance(v, (list, tuple)) else v, False), "array of the metadata")
        else:
            env.check(env.same(g, v) if env.is_sym(g) or env.is_sym(v) else g == v, "number of the metadata")


def h_roundtrip(env, shape, nav, dtype="float32", lazy=False, n=None):
    scales = [env.choose("s%d" % i, STEPS) if i < 2 else 0.5 for i in range(len(shape))]
    offsets = [env.choose("o%d" % i, STARTS) if i < 1 else 7.0 for i in range(len(shape))]
    s = sig(env, "d", shape, nav, dtype, scales, offsets)
    write(env, s)
    out = read(env, lazy=lazy, nxdata_only=True)
    env.check(len(out) == 1, "one signal")
    check_data(env, out[0], s["data"], lazy)
    check_axes(env, out[0]["axes"], s["axes"])
    md = out[0]["metadata"]
    env.check(md["General"] == {"title": "a title", "date": "2020-01-02", "authors": "Someone"}, "general metadata")
    env.check(md["Signal"]["signal_type"] == "EELS", "signal type")
    env.cover("read")


def h_metadata(env, case, lazy=False):
    x, i = env.float("x"), env.int("i", -2**63, 2**63 - 1)
    a, b = env.array("a", (3,), "int16"), env.array("b", (2, 2), "float64")
    tree = {
        "plain": {"A": {"x": x, "n": {"i": i, "text": "µ text"}}, "flag": True, "f": 2.5, "empty": ""},
        "arrays": {"A": {"a": a, "b": b}, "list": [1, 2, 3], "tuple": (0.5, 1.5), "texts": ["ab", "c"]},
        "numpy": {"A": {"i": np.int64(5), "f": np.float32(0.25), "d": np.float64(1.5), "u": np.uint8(200), "flag": np.bool_(True)}},
        "unicode": {"elements": ["Zn", "µm"], "one": "é"},
        "value": {"stage": {"value": x, "attrs": {"units": "mm", "i": i}}, "arr": {"value": a, "attrs": {"units": "keV"}}},
        "none": {"A": {"nothing": None, "x": x}, "y": None},
        "keys": {"keysx": x, "items": 3},
        "axes": {"other": {"axes": [{"name": "p", "scale": x}, {"name": "q", "scale": 2.0}]}},
    }[case]
    om = dict(tree)
    lr = {"factors": env.array("f", (3, 2), "float64"), "algorithm": "svd", "number": i}
    s = sig(env, "d", (2, 3), 1, md={"Acquisition_instrument": {"SEM": dict(tree)}} if case not in ("value", "axes") else None, om=om, lr=lr)
    write(env, s)
    out = read(env, lazy=lazy, nxdata_only=True)[0]
    want = copy.copy(tree)
    if case == "none":
        want = {"A": {"x": x}}
    elif case == "keys":
        want = {"fix_keysx": x, "items": 3}
    elif case == "axes":
        want = {"other": {"_axes_0": {"name": "p", "scale": x}, "_axes_1": {"name": "q", "scale": 2.0}}}

    def computed(t):
        return {k: computed(v) if isinstance(v, dict) else env.nd(v) for k, v in t.items()}

    om, md = computed(out["original_metadata"]), computed(out["metadata"])
    tree_same(env, om, want)
    if case not in ("value", "axes"):
        tree_same(env, md["Acquisition_instrument"]["SEM"], want)
    tree_same(env, computed(out["attributes"]["learning_results"]), lr)
    env.check(md["General"] == {"title": "a title", "date": "2020-01-02", "authors": "Someone"}, "general metadata")
    env.cover("read")


def h_several(env, default, lazy=False):
    ss = [sig(env, "d0", (2, 3), 1, title="im", om={"a": {"v": env.float("v0")}}), sig(env, "d1", (3,), 0, "uint8", title="image", om={"a": {"v": env.float("v1")}}), sig(env, "d2", (2, 2, 2), 1, "int32", title="", om={})]
    write(env, ss, use_default=default)
    out = read(env, lazy=lazy, nxdata_only=True, use_default=default)
    env.check(len(out) == (1 if default else 3), "signals, or the default one")
    for k, (o, s) in enumerate(zip(out, ss)):
        check_data(env, o, s["data"], lazy)
        check_axes(env, o["axes"], s["axes"])
        env.check(o["metadata"]["General"]["title"] == (s["metadata"]["General"]["title"] or "unnamed__2"), "title")
        if k < 2:
            env.check(env.same(o["original_metadata"]["a"]["v"], s["original_metadata"]["a"]["v"]), "metadata of its own")
    env.cover("read")


def create(env):
    import h5py

    return h5py.File(env.path("a.nxs"), "w")


def nxdata(g, name, arrays, signal="data", axes=None, attrs=(), cls=b"NXdata"):
    d = g.create_group(name)
    if cls:
        d.attrs["NX_class"] = cls
    if signal is not None:
        d.attrs["signal"] = signal
    if axes is not None:
        d.attrs["axes"] = axes
    for k, v in dict(attrs).items():
        d.attrs[k] = v
    for k, v in arrays.items():
        u = None
        if isinstance(v, tuple):
            v, u = v
        ds = d.create_dataset(k, data=v)
        if u is not None:
            ds.attrs["units"] = u
    return d


FOREIGN = {
    # name: shape, signal, attribute axes, axis arrays, attributes, expected axes (name, start, step, units, navigate)
    "no axes": ((2, 3), "data", None, {}, {}, [(None, 0, 1, "", True), (None, 0, 1, "", True)]),
    "list": ((2, 3), "data", ["y", "x"], {"y": ([4.0, 3.0], "mm"), "x": ([1, 2, 3], None)}, {}, [("y", 4, -1, "mm", True), ("x", 1, 1, "", True)]),
    "bytes": ((2, 3), "counts", np.array([b"y", b"x"]), {"y": ([4.0, 5.0], "mm"), "x": ([5.0, 3.0, 1.0], "s")}, {"y_indices": 0, "x_indices": 1, "interpretation": "spectrum"}, [("y", 4, 1, "mm", True), ("x", 5, -2, "s", False)]),
    "text": ((2, 2, 3), "data", "z,y,x", {"z": ([0.5, 1.0], None), "y": ([4.0, 5.0], "mm"), "x": ([0.0, 1e-10, 2e-10], "m")}, {"interpretation": b"image"}, [("z", 0.5, 0.5, "", True), ("y", 4, 1, "mm", False), ("x", 0, 1e-10, "m", False)]),
    "detector": ((2, 3, 2), "data", ["y", ".", "."], {"y": ([4.0, 5.0], "mm")}, {}, [("y", 4, 1, "mm", True), (None, 0, 1, "", False), (None, 0, 1, "", False)]),
    "detector first": ((2, 3, 2), "data", [".", "y", "."], {"y": ([4.0, 5.0, 6.0], "mm")}, {"y_indices": np.array([1])}, [(None, 0, 1, "", False), ("y", 4, 1, "mm", True), (None, 0, 1, "", False)]),
    "length one": ((1, 3), "data", ["y", "x"], {"y": ([4.0], "mm"), "x": ([1.0, 2.0, 3.0], "s")}, {}, [("y", 4, None, "mm", True), ("x", 1, 1, "s", True)]),
    "curved": ((2, 4), "data", ["y", "x"], {"y": ([4.0, 5.0], "mm"), "x": ([1.0, 2.0, 4.0, 8.0], "s")}, {}, [("y", 4, 1, "mm", True), ("x", 0, 1, None, True)]),
    "curved and small": ((2, 4), "data", ["y", "x"], {"y": ([4e-9, 5e-9], "m"), "x": ([1e-9, 2e-9, 4e-9, 8e-9], "m")}, {}, [("y", 4e-9, 1e-9, "m", True), ("x", 0, 1, None, True)]),
    "integers": ((2, 3), "data", ["y", "x"], {"y": (np.array([5, 3], "uint8"), "mm"), "x": (np.array([7, 5, 3], "uint16"), "")}, {}, [("y", 5, -2, "mm", True), ("x", 7, -2, "", True)]),
    "one dimension": ((3,), "data", "x", {"x": ([1.0, 2.0, 3.0], "s")}, {"interpretation": "spectrum"}, [("x", 1, 1, "s", False)]),
    "texts": ((2, 2), "data", ["y", "x"], {"y": (np.array([b"Fe", b"Zn"]), None), "x": ([1.0, 2.0], "s")}, {}, None),
    "integer signal": ((2, 2), 1, ["y", "x"], {"y": ([4.0, 5.0], "mm"), "x": ([1.0, 2.0], "s")}, {}, [("y", 4, 1, "mm", True), ("x", 1, 1, "s", True)]),
}


def h_foreign(env, case, lazy=False):
    shape, signal, axes, arrs, attrs, want = FOREIGN[case]
    d = env.array("d", shape, "int32")
    f = create(env)
    f.attrs["note"] = "n"
    e = f.create_group("scan1")
    e.attrs["NX_class"] = "NXentry"
    ins = e.create_group("instrument")
    v = env.float("v")
    ins.create_dataset("energy", data=v).attrs["units"] = "keV"
    ins.create_dataset("name", data="é")
    nxdata(e, "im", {signal if isinstance(signal, str) else "data": d, **arrs}, signal, axes, attrs)
    f.close()
    out = read(env, lazy=lazy, nxdata_only=True)
    env.check(len(out) == 1, "one signal")
    s = out[0]
    check_data(env, s, d, lazy)
    env.check(s["metadata"]["General"]["title"] == "im", "title")
    om = s["original_metadata"]
    env.check(env.same(om["instrument"]["energy"]["value"], v) and om["instrument"]["energy"]["attrs"]["units"] == "keV" and om["instrument"]["name"] == "é", "original metadata")
    if want is not None:
        env.check(len(s["axes"]) == len(want), "number of axes")
        for i, (a, (name, start, step, units, nav)) in enumerate(zip(s["axes"], want)):
            env.check(a["index_in_array"] == i and a["size"] == shape[i] and bool(a["navigate"]) == nav and a.get("name") == name, "size, place, kind and name of the axis")
            env.check(near(a["offset"], start) and (step is None or near(a["scale"], step)), "calibration of the axis")
            env.check(units is None or a.get("units") == units, "units of the axis")
    env.cover("read")


def h_find(env, keys, paths, hard, want, nx_only=False, lazy=False):
    """which datasets of a file are read, in the order of the file"""
    import h5py

    from rsciio.utils.hdf5 import list_datasets_in_file

    f = create(env)
    names = ["Ca", "Fe", "P", "Zn"]
    arrs = {k: env.array("d" + k, (2, 3), "uint8") for k in names}
    extra = env.array("extra", (3,), "uint16")
    e = f.create_group("entry")
    e.attrs["NX_class"] = "NXentry"
    for k in names:
        nxdata(e, k, {"data": arrs[k]})
    b = f.create_group("before")
    b.create_dataset("Fe_array", data=extra)
    b.create_dataset("single", data=np.array([5]))
    b["link"] = h5py.SoftLink("/entry/Zn")
    b["soft"] = h5py.SoftLink("/before/Fe_array")
    f.close()
    adversary(env)
    out = read(env, dataset_key=keys, dataset_path=paths, hardlinks_only=hard, nxdata_only=nx_only, lazy=lazy)
    got = [s["metadata"]["General"]["title"] for s in out]
    env.check(got == want, "the datasets asked for, in the order of the file")
    for s, t in zip(out, want):
        if t in names or t == "link":
            env.check(env.same_array(env.nd(s["data"]), arrs["Zn" if t == "link" else t]), "every value")
        else:
            env.check(env.same_array(env.nd(s["data"]), extra), "every value")
    if paths is None and not nx_only:
        nx, hd = list_datasets_in_file(env.path("a.nxs"), dataset_key=keys, hardlinks_only=hard, verbose=False)
        env.check([x.split("/")[-1] for x in nx] == [t for t in want if "_" not in t], "list of the NXdata")
        env.check(all(x in hd for x in ["/" + t.replace("_", "/", 1) for t in want if "_" in t]), "list of the datasets")
    env.cover("read")


def h_default(env, entries, root, inner, want):
    """the dataset marked as default"""
    f = create(env)
    arrs = {}
    for en in entries:
        e = f.create_group(en)
        e.attrs["NX_class"] = "NXentry"
        if inner:
            e.attrs["default"] = inner
        for k in ("im", "image"):
            arrs[en, k] = env.array("d" + en + k, (2, 2), "uint8")
            nxdata(e, k, {"data": arrs[en, k]})
    f.attrs["creator"] = "x"
    if root:
        f.attrs["default"] = root
    f.close()
    out = read(env, use_default=True, nxdata_only=True)
    env.check([s["metadata"]["General"]["title"] for s in out] == [k for _, k in want], "the default dataset")
    for s, k in zip(out, want):
        env.check(env.same_array(env.nd(s["data"]), arrs[k]), "every value")
    env.cover("read")


def h_meta(env, keys, skip, want):
    from rsciio.utils.hdf5 import read_metadata_from_file

    f = create(env)
    f.attrs["creator"] = "x"
    e = f.create_group("entry")
    i = e.create_group("instrument")
    v, a = env.float("v"), env.array("a", (3,), "uint8")
    i.create_dataset("energy", data=v).attrs["units"] = "keV"
    i.create_dataset("table", data=a)
    e.create_dataset("title", data="some text")
    nxdata(e, "im", {"data": env.array("d", (2, 2), "uint8")})
    f.close()
    m = read_metadata_from_file(env.path("a.nxs"), metadata_key=keys, skip_array_metadata=skip)

    def flat(t, p=""):
        r = {}
        for k, x in t.items():
            if isinstance(x, dict):
                r.update(flat(x, p + k + "/"))
            else:
                r[p + k] = x
        return r

    m = flat(m)
    full = {"attrs/creator": "x", "entry/instrument/energy/value": v, "entry/instrument/energy/attrs/units": "keV", "entry/instrument/table": a, "entry/title": "some text"}
    env.check(sorted(m) == sorted(full[k] is not None and k for k in full if want in k and not (skip and k.endswith("table"))), "entries of the metadata")
    for k, x in m.items():
        w = full[k]
        env.check(x == w if isinstance(w, str) else env.same(x, w) if not hasattr(w, "shape") else env.same_array(x, w), "values of the metadata")
    env.cover("read")


def harnesses(tier):
    hs = []

    def add(name, fn, p, budget=60, bounds="shapes up to 2 x 2 x 2 x 2"):
        hs.append(H(name, fn, p, budget=budget, functions=F, bounds=bounds, covers=["read"]))

    for lazy in (False, True):
        z = " lazy" if lazy else ""
        for shape, nav, dt in (((3,), 0, "uint8"), ((3,), 1, "float64"), ((2, 3), 1, "float32"), ((3, 2), 0, "int16"), ((3, 2), 2, "uint32"), ((2, 1, 3), 1, "complex64"), ((2, 2, 3), 2, "int64"), ((2, 2, 2, 2), 2, "uint16")):
            add(f"round trip {shape} {nav} {dt}{z}", h_roundtrip, dict(shape=shape, nav=nav, dtype=dt, lazy=lazy))
        for c in ("plain", "arrays", "numpy", "unicode", "value", "none", "keys", "axes"):
            add(f"metadata {c}{z}", h_metadata, dict(case=c, lazy=lazy))
        for d in (False, True):
            add(f"several default={d}{z}", h_several, dict(default=d, lazy=lazy))
        for c in FOREIGN:
            add(f"foreign {c}{z}", h_foreign, dict(case=c, lazy=lazy))
    L = ["link", "Ca", "Fe", "P", "Zn"]
    for name, p in {
        "all": dict(keys=None, paths=None, hard=False, want=L + ["before_Fe_array", "before_soft"]),
        "hard": dict(keys=None, paths=None, hard=True, want=L[1:] + ["before_Fe_array"]),
        "NXdata": dict(keys=None, paths=None, hard=False, want=L, nx_only=True),
        "keys": dict(keys=["Zn", "P", "Ca"], paths=None, hard=False, want=["Ca", "P", "Zn"]),
        "one key": dict(keys="Fe", paths=None, hard=False, want=["Fe", "before_Fe_array"]),
        "paths": dict(keys=None, paths=["/entry/Zn", "/entry/Ca", "/entry/X", "/entry/P", "/before/Fe_array"], hard=False, want=["Ca", "P", "Zn", "before_Fe_array"]),
        "both": dict(keys=["Ca"], paths=["/entry/Zn", "/before/link"], hard=False, want=["link", "Ca", "Zn"]),
        "hard keys": dict(keys=["before", "entry"], paths=None, hard=True, want=["Ca", "Fe", "P", "Zn", "before_Fe_array"], lazy=True),
    }.items():
        add("find " + name, h_find, p)
    A, B = ("entry1", "im"), ("entry1", "image")
    for name, p in {
        "marked": dict(entries=["entry1", "entry2"], root="entry1", inner="im", want=[A]),
        "longer": dict(entries=["entry1", "entry10"], root="entry1", inner="image", want=[B]),
        "single entry": dict(entries=["entry1"], root=None, inner="im", want=[A]),
        "none": dict(entries=["entry1"], root=None, inner=None, want=[A, B]),
    }.items():
        add("default " + name, h_default, p)
    for name, p in {"all": dict(keys=None, skip=False, want=""), "skip": dict(keys=None, skip=True, want=""), "energy": dict(keys="energy", skip=False, want="energy"), "instrument": dict(keys=["instrument"], skip=True, want="instrument")}.items():
        add("read metadata " + name, h_meta, p)
    return hs
