"""HyperSpy HDF5 (.hspy) files."""
from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "h5py is trusted for storage, types and names: the real h5py runs on a scratch file, symbolic contents are kept beside it; the plain h5py on replay",
    "lists that mix only numbers and text come back as text (the repository's tests require it)",
    "keys do not start with the reserved prefixes (_list_, _tuple_, _bs_, _sig_, _datetime_, _ragged_shapes_) and hold no slash; the text '_None_' is reserved; bytes without NUL come back as text",
]


def sig(env, data, nav, md=None, om=None, title="t", lazy=False, **k):
    axes = []
    for i, n in enumerate(data.shape):
        axes.append(dict(_type="UniformDataAxis", name="ax%d" % i, units="nm", navigate=nav[i], is_binned=env.bool("binned"), size=n, scale=env.float("scale%d" % i), offset=env.float("offset%d" % i)))
    d = dict(data=data, axes=axes, metadata={"General": {"title": title}, "Signal": {"signal_type": ""}, **(md or {})}, original_metadata=om or {},
             attributes={"_lazy": lazy, "ragged": False}, learning_results={}, models={}, tmp_parameters={}, package_info={"package": "hyperspy", "package_version": "2.0"})
    d.update(k)
    return d


def equal(env, a, b):
    """value equality with list/tuple/dict structure"""
    if isinstance(b, dict):
        if not isinstance(a, dict) or sorted(a) != sorted(b):
            return False
        return env.all(*[equal(env, a[k], b[k]) for k in b]) if b else True
    if isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return env.all(*[equal(env, x, y) for x, y in zip(a, b)]) if b else True
    if b is None:
        return a is None
    if hasattr(b, "shape") and b.shape != ():
        a = env.nd(a)
        return hasattr(a, "shape") and env.same_array(a, b)
    if isinstance(b, np.generic) and not isinstance(b, (str, bytes)):
        b = b.item()
    if isinstance(b, (str, bytes)):
        return isinstance(a, str if isinstance(b, str) else bytes) and a == b
    if isinstance(a, (str, bytes, dict, list, tuple)) or a is None:
        return False
    if hasattr(a, "shape") and a.shape != ():
        return False
    return env.same(a, b)


MODS = {}


def io(kind):
    import importlib

    m = importlib.import_module("rsciio." + kind)
    return m.file_reader, m.file_writer


def check_signal(env, s, sg, lazy):
    axes_ok = len(s["axes"]) == len(sg["axes"])
    env.check(axes_ok, "number of axes")
    for a, b in zip(s["axes"], sg["axes"]):
        env.check(equal(env, dict(a), dict(b)), "every item of every axis survives, in order")
    for k in ("metadata", "original_metadata", "learning_results"):
        if k == "learning_results":
            env.check(equal(env, s["attributes"].get(k, {}), sg[k]), "learning results survive")
        else:
            env.check(equal(env, s[k], sg[k]), k.replace("_", " ") + " survive with their structure")
    env.check(s["attributes"]["_lazy"] == lazy, "laziness as asked for")
    env.check((s["package"], s["package_version"]) == ("hyperspy", "2.0"), "package information survives")


def data_rt(env, kind, shape, dtype, nav, lazy, wlazy=False, chunks=None, title="t", order="C"):
    reader, writer = io(kind)
    data = env.array("d", shape, dtype)
    if order == "T":
        data = data.T
        nav = nav[::-1]
    sg = sig(env, data, nav, title=title)
    if wlazy:
        import dask.array as da

        sg["data"] = da.from_array(data, chunks=tuple(max(1, s // 2) for s in data.shape), asarray=False)
        sg["attributes"]["_lazy"] = True
    fn = env.path("a." + kind)
    writer(fn, sg, chunks=chunks, show_progressbar=False)
    s = reader(fn, lazy=lazy)[0]
    d = env.nd(s["data"])
    env.check(tuple(d.shape) == tuple(data.shape), "shape survives")
    env.check(env.same_array(d, data), "every value and the data type survive")
    check_signal(env, s, sg, lazy)
    env.cover("read back")


def tree(env, what):
    """metadata trees: structure concrete, leaves symbolic"""
    n = [0]

    def I():
        n[0] += 1
        return env.int("i%d" % n[0], -2 ** 63, 2 ** 63 - 1)

    def F():
        n[0] += 1
        return env.float("f%d" % n[0])

    B = lambda: env.bool("b")
    A = lambda dt, sh: env.array("a", sh, dt)
    return {
        "scalars": lambda: {"i": I(), "f": F(), "b": B(), "n": None, "s": "text µ", "e": "", "d": {}, "t": True},
        "nested": lambda: {"a": {"b": {"c": I(), "d": {"e": F()}}, "l": [I(), I()]}, "z": {"a": I()}},
        "lists": lambda: {"i": [I(), I(), I()], "f": [F(), F()], "s": ["a", "µb", ""], "e": [], "et": (), "t": (I(), I()), "ts": ("x", "yy"), "one": [I()], "b": [B(), B()]},
        "mixed": lambda: {"m": [I(), "a", None, F()], "mt": (None, I(), "q"), "nn": [None, None], "deep": [[I(), None, "x"], [None]]},
        "list of dicts": lambda: {"l": [{"k": I()} for _ in range(4)], "t": tuple({"k": I()} for _ in range(3))},
        "long list of dicts": lambda: {"l": [{"k": I()} for _ in range(12)]},
        "long tuple": lambda: {"t": tuple([I(), "a", None] for _ in range(11))},
        "long mixed": lambda: {"m": [I() if i % 2 else "v%d" % i for i in range(0)] + [None] * 1 + [I() for _ in range(11)]},
        "matrix": lambda: {"l": [[I(), I()], [I(), I()]], "t": ((F(), F()), (F(), F())), "r": [[I()], [I(), I()]]},
        "arrays": lambda: {"u": A("uint8", (2, 2)), "f": A("float64", (3,)), "c": A("complex64", (2,)), "b": A("bool", (3,)), "x": {"i": A(">i2", (2, 1))}},
        "text arrays": lambda: {"u": np.array(["a", "bb"]), "i": I()},
        "underscore": lambda: {"l_1_a": [None, I()], "a_b": [{"x_y": I()}, None], "12": [None, I()]},
        "names": lambda: {"a b": I(), "µ": F(), "a.b": [I(), None], "x-y": {"1": I()}},
        "zero-d": lambda: {"z": np.array(3), "i": I()},
        "empty arrays": lambda: {"e": np.zeros((0,)), "e2": np.zeros((0, 3)), "i": I()},
        "bytes": lambda: {"b": b"a\x00b", "i": I()},
        "numpy scalars": lambda: {"b": np.bool_(True), "i": np.int32(-4), "f": np.float32(0.5), "s": np.str_("abc"), "q": I()},
        "signal like": lambda: {"_HyperSpy": {"Stacking_history": {"axis": I()}}, "s": [F(), None]},
    }[what]()


TREES = ["scalars", "nested", "lists", "mixed", "list of dicts", "long list of dicts", "long tuple", "long mixed", "matrix", "arrays", "text arrays", "underscore", "names", "zero-d", "empty arrays", "bytes", "numpy scalars", "signal like"]


def meta_rt(env, kind, what, where, lazy=False):
    reader, writer = io(kind)
    t = tree(env, what)
    k = dict(md={"Sub": t}) if where == "metadata" else dict(om=t) if where == "original_metadata" else dict(learning_results=t)
    sg = sig(env, env.array("d", (2,), "uint8"), (False,), **k)
    fn = env.path("a." + kind)
    writer(fn, sg, show_progressbar=False)
    s = reader(fn, lazy=lazy)[0]
    check_signal(env, s, sg, lazy)
    env.check(env.same_array(env.nd(s["data"]), sg["data"]), "data survive")
    env.cover("read back")


def update(env, kind, what0, what, mode=False):
    """write_dataset=False replaces everything but the data"""
    reader, writer = io(kind)
    mk = lambda w: {"a": [{"k": env.int("k", 0, 99)}] * 2} if w == "list2" else {"a": [{"k": env.int("k", 0, 99)}, None, {"k": env.int("k", 0, 99)}]} if w == "list3" else \
        {"a": env.int("k", 0, 99)} if w == "scalar" else {"a": None} if w == "none" else {"a": [env.int("k", 0, 99), env.int("k", 0, 99)]} if w == "ints" else \
        {"a": (env.int("k", 0, 99), 1)} if w == "tuple" else {"a": []} if w == "empty" else {"a": env.array("q", (3,), "uint8")} if w == "array" else {"a": "text"} if w == "text" else {"a": {"x": env.int("k", 0, 9)}}
    data = env.array("d", (2, 2), "uint8")
    sg = sig(env, data, (True, False), om=mk(what0))
    fn = env.path("a." + kind)
    writer(fn, sg, show_progressbar=False)
    sg2 = sig(env, env.array("other", (2, 2), "uint8"), (False, False), om=mk(what))
    kw = {"mode": "a"} if kind == "hspy" and mode else {}
    writer(fn, sg2, show_progressbar=False, write_dataset=False, **kw)
    s = reader(fn)[0]
    env.check(env.same_array(s["data"], data), "the stored data stay")
    check_signal(env, s, sg2, False)
    env.cover("read back")


def models(env, kind):
    reader, writer = io(kind)
    m = {"m1": {"a": env.int("a", 0, 9), "components": [{"n": env.int("n", 0, 9)}, {"n": env.int("n", 0, 9)}]}}
    sg = sig(env, env.array("d", (2,), "uint8"), (False,), models=m)
    fn = env.path("a." + kind)
    writer(fn, sg, show_progressbar=False)
    s = reader(fn)
    env.check(len(s) == 1, "one signal")
    env.check(equal(env, s[0]["models"], m), "models come back with their signal")
    env.cover("read back")


def many(env, kind, names, lazy=False):
    """several signals in a file, each with models of its own; one model without a signal"""
    from rsciio.hspy import file_reader, file_writer

    fn = env.path("a.hspy")
    sgs = []
    for i, n in enumerate(names):
        m = {"%s%d" % (c, i): {"p": env.int("p%d%s" % (i, c), 0, 99), "components": [{"n": env.int("n", 0, 9)}, {"n": None}]} for c in "zab"[: (i % 3) + 1]}
        sg = sig(env, env.array("d%d" % i, (2, 2), "uint8"), (True, False), title=n, models=m)
        file_writer(fn, sg, show_progressbar=False, **({"mode": "a"} if i else {}))
        sgs.append(sg)
    free = env.int("free", 0, 99)
    import h5py

    with h5py.File(fn, "a") as f:
        f.require_group("Analysis/models").create_group("alone").attrs["q"] = free
    out = file_reader(fn, lazy=lazy)
    env.check(len(out) == len(names) + 1, "every signal and the model without signal come back")
    env.check(equal(env, out[-1], {"alone": {"q": free}}), "a model without signal comes back on its own")
    by = {s["metadata"]["General"]["title"]: s for s in out[:-1]}
    env.check(sorted(by) == sorted(names), "every signal comes back once")
    for sg in sgs:
        s = by[sg["metadata"]["General"]["title"]]
        env.check(env.same_array(env.nd(s["data"]), sg["data"]), "each signal keeps its data")
        env.check(equal(env, s["models"], sg["models"]), "each signal keeps its own models, whole")
        check_signal(env, s, sg, lazy)
    env.cover("read back")


def axes_update(env, kind, kinds, dataset):
    """saving again with another kind of axis leaves nothing of the previous axis"""
    reader, writer = io(kind)
    def ax(k, n):
        d = dict(name="x", units="nm", navigate=False, is_binned=env.bool("binned"))
        if k == "uniform":
            d.update(_type="UniformDataAxis", size=n, scale=env.float("scale"), offset=env.float("offset"))
        elif k == "data":
            d.update(_type="DataAxis", axis=env.array("axis", (n,), "float64"))
        else:
            d.update(_type="FunctionalDataAxis", expression="a*x+b", size=n, a=env.float("a"), b=env.float("b"), x=dict(_type="UniformDataAxis", size=n, scale=env.float("xs"), offset=env.float("xo")))
        return d
    fn = env.path("a." + kind)
    data = env.array("d", (3,), "uint8")
    for i, k in enumerate(kinds):
        sg = sig(env, data, (False,))
        sg["axes"] = [ax(k, 3)]
        if i:
            kw = dict(write_dataset=False) if not dataset else {}
            if kind == "hspy":
                kw["mode"] = "a"
            writer(fn, sg, show_progressbar=False, **kw)
        else:
            writer(fn, sg, show_progressbar=False)
    s = reader(fn)[0]
    env.check(env.same_array(s["data"], data), "the data stay")
    check_signal(env, s, sg, False)
    env.cover("read back")


def ragged(env, kind, shape, lazy, wlazy=False):
    reader, writer = io(kind)
    data = np.empty(shape, dtype=object)
    refs = {}
    for j, i in enumerate(np.ndindex(*shape)):
        refs[i] = np.arange(j, 2 * j + 3).reshape((1, -1) if j % 2 else (-1,))
        data[i] = refs[i]
    sg = sig(env, data, (True,) * len(shape))
    sg["attributes"]["ragged"] = True
    fn = env.path("a." + kind)
    writer(fn, sg, show_progressbar=False)
    s = reader(fn, lazy=lazy)[0]
    d = env.nd(s["data"])
    env.check(d.shape == shape, "shape survives")
    for i in refs:
        env.check(d[i].shape == refs[i].shape and bool((np.asarray(d[i]) == refs[i]).all()), "each element keeps its shape and values")
    check_signal(env, s, sg, lazy)
    env.cover("read back")


def rewrite(env, shapes, dtypes, append, lazy_between):
    """writing again over a file leaves nothing of the previous content; appending keeps both signals"""
    from rsciio.hspy import file_reader, file_writer

    fn = env.path("a.hspy")
    done = []
    for i, (sh, dt) in enumerate(zip(shapes, dtypes)):
        sg = sig(env, env.array("d", sh, dt), (False,) * len(sh), om={"k%d" % i: env.int("i%d" % i, 0, 9), "l": [{"a": None}] * (i + 1)}, title="t%d" % i)
        file_writer(fn, sg, show_progressbar=False, **({"mode": "a"} if append else {}))
        done.append(sg)
        if lazy_between:
            x = file_reader(fn, lazy=True)
            del x
    if not append:
        done = done[-1:]
    s = file_reader(fn)
    env.check(len(s) == len(done), "number of signals")
    for a, b in zip(s, done):
        env.check(env.same_array(a["data"], b["data"]), "every value survives")
        check_signal(env, a, b, False)
    env.cover("read back")


def pure(env, kind):
    """the writer leaves the caller's signal as it was"""
    reader, writer = io(kind)
    import copy

    om = {"a": [env.int("i", 0, 9), None], "b": {"c": env.float("f")}, "t": (1, None)}
    sg = sig(env, env.array("d", (2, 3), "uint16"), (True, False), om=om)
    before = {k: copy.deepcopy(v) for k, v in sg.items() if k != "data"}
    data = sg["data"].copy()
    fn = env.path("a." + kind)
    writer(fn, sg, show_progressbar=False)
    for k, v in before.items():
        env.check(equal(env, sg[k], v), "the writer leaves the signal as it was")
    env.check(env.same_array(sg["data"], data), "the writer leaves the data as they were")
    writer(fn, sg, show_progressbar=False)
    s = reader(fn)[0]
    env.check(env.same_array(s["data"], data), "a second write stores the same")
    check_signal(env, s, sg, False)
    env.cover("read back")


def chunk_shape(env, shape_max, signal, dtype, target):
    """chunks for any shape are positive, within the shape, and hold whole signals"""
    from rsciio._hierarchical import get_signal_chunks

    shape = tuple(env.int("s%d" % i, 1, m) for i, m in enumerate(shape_max))
    c = get_signal_chunks(shape, np.dtype(dtype), signal, target)
    env.check(isinstance(c, tuple) and len(c) == len(shape), "one chunk size per axis")
    ok = []
    for i, (a, b) in enumerate(zip(c, shape)):
        ok += [a >= 1, a <= b]
        if i in signal:
            ok.append(a == b)
    env.check(env.all(*ok), "chunk sizes are between 1 and the axis size and hold whole signals")
    env.cover("read back")


def build(kind, tier):
    hs = []
    fn = [kind + ".file_writer", kind + ".file_reader", "HierarchicalWriter.*", "HierarchicalReader.*", "get_signal_chunks"]
    add = lambda name, f, p: hs.append(H(name, f, dict(kind=kind, **p), 120, fn, "symbolic data, calibration and leaves; structure in the name", ["read back"]))
    T = tier == "thorough"
    for i, dt in enumerate(["uint8", "int16", ">u2", "uint64", "float32", ">f8", "complex128", "bool"]):
        for lazy in (False, True):
            for wl in (False, True):
                if T or (i + lazy + wl) % 2 == 0:
                    add(f"data {dt} {lazy} {wl}", data_rt, dict(shape=(2, 3), dtype=dt, nav=(True, False), lazy=lazy, wlazy=wl))
    for sh, nav in (((3,), (False,)), ((2, 2, 2), (True, False, False)), ((2, 1, 2, 2), (True, True, False, False)), ((3,), (True,))):
        for lazy in (False, True):
            add(f"data {sh} {lazy}", data_rt, dict(shape=sh, dtype="uint16", nav=nav, lazy=lazy))
    for ch in ((1, 2), (2, 1), (2, 3)):
        add(f"data chunks {ch}", data_rt, dict(shape=(2, 3), dtype="uint16", nav=(True, False), lazy=True, chunks=ch))
    add("data transposed", data_rt, dict(shape=(2, 3), dtype="uint16", nav=(True, False), lazy=False, order="T"))
    for t in ("", "a/b", "x" * 50, "µ title"):
        add(f"data title {t[:7]}", data_rt, dict(shape=(2,), dtype="uint8", nav=(False,), lazy=False, title=t))
    for w in TREES:
        if kind == "zspy" and w in ("bytes",):
            continue
        for wh in ("metadata", "original_metadata", "learning_results"):
            add(f"tree {w} {wh}", meta_rt, dict(what=w, where=wh))
        add(f"tree {w} lazy", meta_rt, dict(what=w, where="original_metadata", lazy=True))
    ks = ["list2", "list3", "scalar", "none", "ints", "tuple", "empty", "array", "text", "dict"]
    for a in ks:
        for b in ks:
            add(f"update {a} {b}", update, dict(what0=a, what=b))
    if kind == "hspy":
        add("update ints mode", update, dict(what0="ints", what="ints", mode=True))
        add("update list3 mode", update, dict(what0="list2", what="list2", mode=True))
    add("models", models, {})
    for a, b in itertools.permutations(("uniform", "data", "functional"), 2):
        for ds in (False, True):
            add(f"axis update {a} {b} {ds}", axes_update, dict(kinds=(a, b), dataset=ds))
    add("pure", pure, {})
    for sh in ((3,), (2, 2)):
        for lazy in (False, True):
            add(f"ragged {sh} {lazy}", ragged, dict(shape=sh, lazy=lazy))
    return hs



# ---- files of previous versions of the format
def put_tree(g, t):
    for k, v in t.items():
        if isinstance(v, dict):
            put_tree(g.create_group(k), v)
        elif hasattr(v, "shape") and v.shape != ():
            g.create_dataset(k, data=v, chunks=True)
        else:
            g.attrs[k] = "_None_" if v is None else v


def legacy(env, version, what):
    """metadata of previous versions move to their present place with their values, and nothing else changes"""
    import h5py
    from rsciio.hspy import file_reader

    n = [0]

    def F():
        n[0] += 1
        return env.float("f%d" % n[0])

    a, b, c, d, e, f = (F() for _ in range(6))
    old12 = version in ("1.0", "1.1")
    data = env.array("d", (2, 3), "uint16")
    om = {"x": F(), "y": {"z": F()}}
    lr = None
    AI = lambda t: dict(t) if old12 else {"Acquisition_instrument": t}
    if what == "eels":
        md = AI({"TEM": {"beam_energy": a, "EELS": {"collection_angle": b, "dwell_time": c, "exposure": d, "dwell_time_units": "s", "exposure_units": "ms"}}} if not old12 else
                {"TEM": {"beam_energy": a, "EELS": {"collection_angle": b}, "dwell_time": c, "exposure": d, "dwell_time_units": "s", "exposure_units": "ms"}})
        # the detector settings of EELS take the place of the detector
        det = {"collection_angle": b, "dwell_time": c, "exposure": d, "dwell_time_units": "s", "exposure_units": "ms"}
        want = {"Acquisition_instrument": {"TEM": {"beam_energy": a, **({"Detector": det} if old12 else {"EELS": det})}}}
    elif what == "eds":
        md = AI({"TEM": {"beam_energy": a, "EDS": {"live_time": b}, "tilt_stage": c}, "SEM": {"beam_energy": d, "EDS": {"live_time": e}, "tilt_stage": f}})
        sub = lambda x: {"Detector": {"EDS": {"live_time": x}}} if old12 else {"EDS": {"live_time": x}}
        want = {"Acquisition_instrument": {"TEM": {"beam_energy": a, **sub(b), "Stage": {"tilt_alpha": c}}, "SEM": {"beam_energy": d, **sub(e), "Stage": {"tilt_alpha": f}}}}
    elif what == "camera":
        md = AI({"TEM": {"beam_energy": a, "exposure": b}})
        want = {"Acquisition_instrument": {"TEM": {"beam_energy": a, "Detector": {"Camera": {"exposure": b}}}}}
    elif what == "camera dm":
        md = AI({"TEM": {"beam_energy": a, "exposure_time": b, "Detector": {"EDS": {"azimuth": c}}}})
        want = {"Acquisition_instrument": {"TEM": {"beam_energy": a, "Detector": {"EDS": {"azimuth": c}, "Camera": {"exposure": b}}}}}
    elif what == "general":
        if old12:
            md = {"title": "tt", "date": "2011-01-02", "time": "10:11:12", "original_filename": "o.dm3", "record_by": "spectrum", "signal_origin": "simulation", "Variance_estimation": {"gain": a}, "Sample": {"Xray_lines": env.array("q", (2,), "uint8"), "thickness": b}, "_internal_parameters": {"stacking_history": {"axis": 1}, "folding": {"unfolded": False, "k": c}}}
            md["signal" if version == "1.0" else "signal_type"] = "EELS"
            if version == "1.0":
                md["name"] = md.pop("title")
            x = md["Sample"]["Xray_lines"]
            want = {"General": {"title": "tt", "date": "2011-01-02", "time": "10:11:12", "original_filename": "o.dm3"}, "Signal": {"record_by": "spectrum", "signal_origin": "simulation", "signal_type": "EELS"}, "Noise_properties": {"Variance_linear_model": {"gain": a}}, "Sample": {"xray_lines": x, "thickness": b}, "_HyperSpy": {"Stacking_history": {"axis": 1}, "Folding": {"unfolded": False, "k": c}}}
            lr = {"explained": env.array("l", (2,), "float64")}
        else:
            md = {"General": {"title": "__unnamed__"}, "Signal": {"signal_type": "EELS"}, "Variance_estimation": {"gain": a}, "Sample": {"Xray_lines": env.array("q", (2,), "uint8")}, "title": "kept", "signal_type": "kept"}
            want = {**md, "General": {"title": ""}}
    elif what == "dates":
        md = {"General": {"_datetime_date": "datetime.date(2012, 3, 14)", "_datetime_time": "datetime.time(13, 5, 7)", "title": "x", "f": a}}
        want = {"General": {"date": "2012-03-14", "time": "13:05:07", "title": "x", "f": a}}
    elif what == "axes":
        md, want = {"f": a}, {"f": a}
    else:  # present format: nothing is moved
        md = {"Acquisition_instrument": {"TEM": {"tilt_stage": a, "exposure": b, "EDS": {"x": c}}, "SEM": {"tilt_stage": d}}, "Variance_estimation": {"g": e}, "TEM": {"EELS": {"dwell_time": f}}, "title": "q", "record_by": "image", "_internal_parameters": {"folding": {"a": 1}}}
        want = md
    axes = [dict(name="x", units="nm", navigate=True, size=2, scale=F(), offset=F()), dict(name="y", units="", navigate=False, size=3, scale=F(), offset=F())]
    fn = env.path("a.hspy")
    with h5py.File(fn, "w") as h:
        if version is not None:
            h.attrs["file_format_version"] = np.bytes_(version) if what == "dates" else float(version) if version == "2.2" else version
        g = h.create_group("Experiments/e")
        g.create_dataset("data", data=data, chunks=(1, 3))
        put_tree(g.create_group("mapped_parameters" if old12 else "metadata"), md)
        put_tree(g.create_group("original_parameters" if old12 else "original_metadata"), om)
        if lr:
            put_tree(g.create_group("mva_results" if version == "1.0" else "learning_results"), lr)
            put_tree(g.create_group("peak_mva_results" if version == "1.0" else "peak_learning_results"), om)
        for i, x in enumerate(axes):
            put_tree(g.create_group("_list_2_axes/%d" % i if what == "axes" else "axis-%d" % i), x)
    for lazy in (False, True):
        s, = file_reader(fn, lazy=lazy)
        env.check(env.same_array(env.nd(s["data"]), data), "data survive")
        env.check(equal(env, s["metadata"], want), "metadata of previous versions move to their present place with their values")
        env.check(equal(env, s["original_metadata"], om), "original metadata stay as they are")
        env.check(len(s["axes"]) == 2 and bool(env.all(*[equal(env, dict(p), q) for p, q in zip(s["axes"], axes)])), "axes survive in order")
        env.check((s["package"], s["package_version"], s["models"]) == ("", "", {}), "files without a package have none")
        if lr:
            at = s["attributes"]
            env.check(env.all(equal(env, at["learning_results"], lr), equal(env, at["peak_learning_results"], om)), "decomposition results are found under their previous name")
    env.cover("read back")


def legacy_harnesses(tier):
    hs = []
    for v in ("1.0", "1.1", "1.2", "2.0", "2.2", "3.0", "3.3"):
        for w in ("eels", "eds", "camera", "camera dm", "general", "dates", "axes", "present"):
            if v in ("3.0", "3.3"):
                if w not in ("present", "dates", "axes"):
                    continue
            elif w == "present":
                continue
            hs.append(H(f"legacy {v} {w}", legacy, dict(version=v, what=w), 120, ["HierarchicalReader.group2signaldict", "HierarchicalReader._group2dict", "HierarchicalReader.get_format_version"], "symbolic values in the metadata of each previous version", ["read back"]))
    return hs


def harnesses(tier):
    hs = build("hspy", tier)
    for names in (("a", "ab", "abc"), ("ab", "a"), ("s", "t", "s2", "Signal")):
        for lazy in (False, True):
            hs.append(H(f"many {names} {lazy}", many, dict(kind="hspy", names=names, lazy=lazy), 120, ["hspy.file_writer", "hspy.file_reader", "HierarchicalReader.read"], "several signals with models", ["read back"]))
    hs += legacy_harnesses(tier)
    for ap in (False, True):
        for lb in (False, True):
            if not (ap and lb):
                hs.append(H(f"rewrite {ap} {lb}", rewrite, dict(shapes=[(2, 3), (4,), (2, 2, 2)], dtypes=["uint16", "float32", "uint8"], append=ap, lazy_between=lb), 120, ["hspy.file_writer", "hspy.file_reader"], "three writes to one file", ["read back"]))
    for sm, sg in (((4, 4), (1,)), ((5, 4, 3), (2,)), ((12, 9, 4), (2,)), ((9, 2, 7, 2), (3,)), ((3, 3, 3), (1, 2)), ((6,), (0,)), ((3, 3, 3, 2), (3,))):
        for dt in ("u1", "f8"):
            for tgt in (6, 40):
                hs.append(H(f"chunks {sm} {sg} {dt} {tgt}", chunk_shape, dict(shape_max=sm, signal=sg, dtype=dt, target=tgt), 120, ["get_signal_chunks"], f"all shapes up to {sm}", ["read back"]))
    return hs
