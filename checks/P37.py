"""USID files: values, axes and parameters; which datasets are read."""
import contextlib
import warnings

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "pyUSID and sidpy lay out the file: symbolic values pass through them as numbers which name the values (they are never computed with), the plain values on replay",
    "numpy.product, which pyUSID needs and numpy 2 no longer has, is numpy.prod during the check",
]
F = ["rsciio.usid._api." + n for n in ("file_reader", "file_writer", "_get_dim_dict", "_assemble_dim_list", "_split_descriptor", "_convert_to_signal_dict", "_usidataset_to_signal_dict", "_flatten_dict", "_axes_list_to_dimensions")]


class Named:
    """N-dimensional array of structured numbers which name values"""

    def __init__(self, t, a):
        self.t, self.a = t, a

    shape = property(lambda self: self.a.shape)
    dtype = property(lambda self: self.a.dtype)

    def squeeze(self):
        return Named(self.t, self.a.squeeze())

    def __getitem__(self, k):
        return self.t.out(np.asarray(self.a[k]))


class Table:
    def __init__(self, env):
        self.env, self.cells, self.dtype = env, [], {}

    def ids(self, a):
        import numpy as real

        a = self.env.nd(a)
        c = list(self.env.cells(a))
        i0, w = len(self.cells), a.dtype.itemsize
        self.cells += [c[i : i + w] for i in range(0, len(c), w)]
        for i in range(i0, len(self.cells)):
            self.dtype[i] = a.dtype
        return real.arange(i0, len(self.cells), dtype="int64").reshape(a.shape)

    def out(self, ids):
        i = [int(q) for q in ids.ravel()]
        return self.env.from_cells([z for q in i for z in self.cells[q]], self.dtype[i[0]], ids.shape)


class Over:
    def __init__(self, base, **kw):
        self.__dict__.update(kw, base=base)

    def __getattr__(self, k):
        return getattr(self.base, k)


@contextlib.contextmanager
def library(env, seen=None):
    import numpy as real

    from rsciio.usid import _api as m

    seen = {} if seen is None else seen
    usid = m.usid
    t = Table(env)
    had = hasattr(real, "product")
    if not had:
        real.product = real.prod

    def reshape(main, **kw):
        seen["lazy"] = kw.get("lazy", False)
        a, ok, labels = usid.hdf_utils.reshape_to_n_dims(main, **kw)
        if env.symbolic:
            a = real.asarray(a)
            a = Named(t, a) if a.dtype.names else t.out(a)
        return a, ok, labels

    class Translator:
        def translate(self, f, name, data, *a, **kw):
            return usid.NumpyTranslator().translate(f, name, t.ids(data) if env.symbolic else data, *a, **kw)

    def write(grp, data, *a, **kw):
        return usid.hdf_utils.write_main_dataset(grp, t.ids(data) if env.symbolic else data, *a, **kw)

    m.usid = Over(usid, NumpyTranslator=Translator, hdf_utils=Over(usid.hdf_utils, reshape_to_n_dims=reshape, write_main_dataset=write))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield m, t
    finally:
        m.usid = usid
        if not had:
            del real.product


NAMES = ["alpha", "beta", "gamma", "delta"]
UNITS = ["nm", "s", "eV", "K"]


def make(env, tag, shape, nav, dtype, lazy=False, md=None, om=None):
    import dask.array as da

    d = env.array(tag, shape, dtype)
    k = env.choose(tag + " calibration", [0, 1, 2])
    sc = [q if k == 0 or (k == 2 and i % 2) else -q for i, q in enumerate((0.5, 2.0, 3.25, 4.0))]
    of = [q - 7.0 * (k == 1) for q in (0.0, 5.0, -6.0, 1.0)]
    ax = [axis(NAMES[i], n, i < nav, i, sc[i], of[i], UNITS[i]) for i, n in enumerate(shape)]
    x = d if not lazy else da.from_array(d if not env.symbolic else d, chunks=shape)
    return dict(data=x, axes=ax, metadata=md or {"General": {"title": tag}, "Signal": {"signal_type": ""}}, original_metadata=om or {}), d


def compare(env, o, s, d):
    keep = [i for i, n in enumerate(d.shape) if n > 1]
    shape = tuple(d.shape[i] for i in keep)
    env.check(tuple(o["data"].shape) == shape, "shape")
    env.check(env.same_array(env.nd(o["data"]), d.reshape(shape), dtype=False), "every value at its place")
    env.check(len(o["axes"]) == len(keep), "one axis per dimension")
    for a, i in zip(o["axes"], keep):
        w = s["axes"][i]
        env.check(a["name"] == w["name"] and a["units"] == w["units"] and a["size"] == d.shape[i], "name, unit and size of the axis")
        env.check(abs(a["scale"] - w["scale"]) < 1e-5 and abs(a["offset"] - w["offset"]) < 1e-5, "scale and offset of the axis")


def h_roundtrip(env, shape, nav, dtype, lazy, dask):
    md = {"General": {"title": "tt", "FileIO": {"n": 3}}, "Signal": {"signal_type": "", "q": 2.5}}
    om = {"x": {"y": 7, "z": {"w": "text"}}, "top": 1}
    s, d = make(env, "d", shape, nav, dtype, dask, md, om)
    f = env.path("a.h5")
    seen = {}
    with library(env, seen) as (m, t):
        m.file_writer(f, s)
        out = m.file_reader(f, lazy=lazy)
    env.check(len(out) == 1, "one signal")
    o = out[0]
    compare(env, o, s, d)
    env.check(bool(seen["lazy"]) == lazy, "read lazily if, and only if, asked for")
    om2 = o["original_metadata"]
    env.check(o["metadata"]["General"]["original_filename"] == f and o["metadata"]["General"]["title"] == "Raw_Data", "title and file")
    env.check(om2["dataset_path"] == "/Measurement_000/Channel_000/Raw_Data" and om2["original_file_type"] == "USID HDF5", "dataset")
    env.check((om2["quantity"], om2["units"]) == ("Unknown Quantity", "Unknown Units"), "quantity")
    p = om2["parameters"]
    want = {"General-title": "tt", "General-FileIO-n": 3, "Signal-q": 2.5, "Original-x-y": 7, "Original-x-z-w": "text", "Original-top": 1}
    env.check(all(k in p and p[k] == v for k, v in want.items()), "every entry of the metadata")
    env.cover("read")


def h_blank(env):
    """axes without name or unit"""
    name, unit = env.choose("name", [None, "", " ", "<undefined>", " x "]), env.choose("unit", [None, "", " ", " m "])
    s, d = make(env, "d", (2, 3), 1, "int16")
    for a in s["axes"]:
        a["units"] = unit
        a["name"] = name if a["navigate"] else "other"
    f = env.path("a.h5")
    with library(env) as (m, t):
        m.file_writer(f, s)
        o = m.file_reader(f)[0]
    env.check(env.same_array(o["data"], d, dtype=False), "values")
    env.check([a["units"] for a in o["axes"]] == [(unit or "").strip() or "a. u."] * 2, "units")
    env.check([a["name"] for a in o["axes"]] == [(name or "").strip() or "Pos_Dim_0", "other"], "names")
    env.cover("read")


def h_append(env):
    """further signals in the same file; the dataset asked for"""
    s1, d1 = make(env, "a", (2, 3), 1, "int16")
    s2, d2 = make(env, "b", (3, 2, 2), env.choose("nav", [0, 1, 2, 3]), "float32")
    s2["metadata"]["Sample"] = {"n": 4}
    f = env.path("a.h5")
    with library(env) as (m, t):
        m.file_writer(f, s1)
        m.file_writer(f, s2)
        both = m.file_reader(f)
        paths = [o["original_metadata"]["dataset_path"] for o in both]
        one = [m.file_reader(f, dataset_path=p) for p in paths]
        wrong, err = env.attempt(lambda: m.file_reader(f, dataset_path=3))
        none, err2 = env.attempt(lambda: m.file_reader(f + "x"))
    env.check(len(both) == 2 and len(set(paths)) == 2, "both signals")
    for o, s, d in zip(both, (s1, s2), (d1, d2)):
        compare(env, o, s, d)
    env.check(both[1]["original_metadata"]["parameters"].get("Sample-n") == 4 and "Sample-n" not in both[0]["original_metadata"]["parameters"], "parameters of each measurement")
    for o, s, d in zip(one, (s1, s2), (d1, d2)):
        env.check(len(o) == 1, "the dataset asked for")
        compare(env, o[0], s, d)
    env.check(isinstance(err, TypeError) and isinstance(err2, FileNotFoundError), "wrong arguments are refused")
    env.cover("read")


def fixture(env, m, t, f, data, quantity, units, pos, spec, dtype=None):
    """file of another program; data: one array or {name: array}"""
    import h5py
    import numpy as real
    import pyUSID as usid

    with h5py.File(f, "w") as h:
        g = usid.hdf_utils.create_indexed_group(h, "Measurement")
        usid.hdf_utils.write_simple_attrs(g, {"operator": "A", "n": 2})
        c = usid.hdf_utils.create_indexed_group(g, "Channel")
        usid.hdf_utils.write_simple_attrs(c, {"gain": 5})
        if isinstance(data, dict):
            parts = {k: t.ids(v) if env.symbolic else v for k, v in data.items()}
            x = real.zeros(next(iter(parts.values())).shape, dtype=[(k, v.dtype) for k, v in parts.items()])
            for k, v in parts.items():
                x[k] = v
        else:
            x = t.ids(data) if env.symbolic else data
        usid.hdf_utils.write_main_dataset(c, x, "Main", quantity, units, [usid.Dimension(*p) for p in pos], [usid.Dimension(*p) for p in spec], slow_to_fast=True)


def h_compound(env, lazy):
    a, b = env.array("a", (2, 3), "float32"), env.array("b", (2, 3), "int16")
    f = env.path("a.h5")
    pos, spec = [("X", "nm", np.array([1.0, 1.5]))], [("Bias", "V", np.array([0.0, 2.0, 4.0]))]
    names = env.choose("names", [("Current [nA]", "Phase (rad)"), ("Current", "Phase [rad]"), ("A (B) [c]", "x y (1/s)")])
    with library(env) as (m, t):
        fixture(env, m, t, f, {names[0]: a, names[1]: b}, "Forces", "N", pos, spec)
        out = m.file_reader(f, lazy=lazy)
    env.check(len(out) == 2, "one signal per field")
    split = {"Current [nA]": ("Current", "nA"), "Phase (rad)": ("Phase", "rad"), "Current": ("Current", ""), "Phase [rad]": ("Phase", "rad"), "A (B) [c]": None, "x y (1/s)": ("x y", "1/s")}
    for o, n, d in zip(out, names, (a, b)):
        env.check(env.same_array(env.nd(o["data"]), d, dtype=False), "values of the field")
        env.check(split[n] is None or (o["original_metadata"]["quantity"], o["original_metadata"]["units"]) == split[n], "quantity and unit of the field")
        env.check(o["metadata"]["Signal"]["signal_type"] == "Forces", "kind of the measurement")
        env.check([(q["name"], q["units"], q["offset"], q["scale"]) for q in o["axes"]] == [("X", "nm", 1.0, 0.5), ("Bias", "V", 0.0, 2.0)], "axes")
        p = o["original_metadata"]["parameters"]
        env.check(p["gain"] == 5 and p["operator"] == "A" and p["n"] == 2, "parameters of the channel and measurement")
    env.cover("read")


def h_uneven(env):
    """dimensions varied unevenly"""
    ignore = env.choose("ignore", [True, False])
    which = env.choose("which", ["pos", "spec", "none"])
    a = env.array("a", (6, 4), "float32")
    x, y, b = [0.0, 1.0, 2.0], [3.0, 5.0], [1.0, 2.0, 3.0, 4.0]
    if which == "pos":
        x = [0.5, 1.0, 4.0]
    if which == "spec":
        b = [1.0, 2.0, 4.0, 8.0]
    f = env.path("a.h5")
    with library(env) as (m, t):
        fixture(env, m, t, f, a, "Current", "nA", [("Y", "nm", np.array(y)), ("X", "µm", np.array(x))], [("Bias", "V", np.array(b))])
        out, err = env.attempt(lambda: m.file_reader(f, ignore_non_uniform_dims=ignore))
    env.check((err is not None) == (which != "none" and not ignore), "refused unless to be ignored")
    if err is not None:
        env.check(isinstance(err, ValueError), "kind of error")
        env.cover("refused")
        return
    o = out[0]
    env.check(env.same_array(o["data"], a.reshape((2, 3, 4)), dtype=False), "every value at its place")
    ax = [(q["name"], q["units"], q["size"], q["offset"], q["scale"]) for q in o["axes"]]
    env.check(ax[0] == ("Y", "nm", 2, 3.0, 2.0), "first axis")
    env.check(ax[1] == ("X", "µm", 3, 0.0, 1.0), "second axis, counted when uneven")
    env.check(ax[2] == ("Bias", "V", 4, 0.0 if which == "spec" else 1.0, 1.0), "third axis, counted when uneven")
    env.check((o["original_metadata"]["quantity"], o["original_metadata"]["units"]) == ("Current", "nA"), "quantity")
    env.cover("read")


def harnesses(tier):
    b = dict(functions=F, budget=120)
    out = []
    combos = [((2, 3), 1, "int16"), ((2, 3, 2), 1, "uint8"), ((2, 3, 2), 2, "float32"), ((3, 2, 2), 3, "float64"), ((2, 2, 3), 0, "int32"), ((3,), 1, "uint16"), ((3,), 0, "int16"), ((1, 3), 1, "int16"), ((3, 1), 1, "int16"), ((2, 1, 3), 2, "uint8"), ((1, 2, 3), 1, "uint8"), ((2, 2, 3, 2), 2, "uint8")]
    for i, (sh, nav, t) in enumerate(combos):
        out.append(H("roundtrip", h_roundtrip, dict(shape=sh, nav=nav, dtype=t, lazy=bool(i % 2), dask=False), covers=["read"], bounds=dict(shape=sh), **b))
    if tier != "quick":
        for nav in range(5):
            out.append(H("roundtrip", h_roundtrip, dict(shape=(2, 3, 4, 5), nav=nav, dtype="int16", lazy=False, dask=False), covers=["read"], bounds=dict(shape=(2, 3, 4, 5)), **b))
    out.append(H("roundtrip", h_roundtrip, dict(shape=(2, 3, 2), nav=1, dtype="float32", lazy=True, dask=True), covers=["read"], bounds=dict(shape=(2, 3, 2)), **b))
    out.append(H("blank", h_blank, {}, covers=["read"], bounds=dict(shape=(2, 3)), **b))
    out.append(H("append", h_append, {}, covers=["read"], bounds=dict(shape=(3, 2, 2)), **b))
    for lazy in (False, True):
        out.append(H("compound", h_compound, dict(lazy=lazy), covers=["read"], bounds=dict(shape=(2, 3)), **b))
    out.append(H("uneven", h_uneven, {}, covers=["read", "refused"], bounds=dict(shape=(2, 3, 4)), **b))
    return out
