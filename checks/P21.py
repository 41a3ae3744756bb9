"""PantaRhei .prz files."""
import io
import json
import pickle

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "zip archives and .npy headers are handled by the standard library and numpy; the array values beside them are symbolic, deflate is modelled by one stored block",
    "metadata in files are concrete (JSON or pickle), calibrations passed to the conversion itself are symbolic",
]
F = ["rsciio.pantarhei._api." + n for n in ("file_reader", "file_writer", "import_pr", "export_pr", "_metadata_converter_in", "_metadata_converter_out", "get_metadata_from_axes_info")] + ["rsciio.utils._distributed.memmap_distributed"]
U = ["rsciio.pantarhei._restricted_unpickling.RestrictedUnpickler", "rsciio.pantarhei._restricted_unpickling.read_pickled_array"]
NAV = ["ScanY", "ScanX", "Index", "PlotIndex"]
SIG = ["CameraY", "CameraX", "Pixel", "Energy", "*"]


def plan(shape, types, eels):
    """types in numpy order -> (kept dims in output order, labels, flipped output axes)"""
    keep = [i for i, t in enumerate(types) if not (shape[i] == 1 and t is not None and "Index" in t)]
    rank = {t: k for k, t in enumerate(NAV + SIG)}
    order = sorted(keep, key=lambda i: rank.get(types[i], len(rank)))
    unnamed = [i for i in order if types[i] is None]
    lab = dict(zip(unnamed, reversed(["X", "Y", "Z"][: len(unnamed)])))
    labels = [types[i] if types[i] is not None else lab[i] for i in order]
    flip = [k for k, l in enumerate(labels) if eels and l == "Energy"]
    return order, labels, flip


def default_types(shape, kind):
    n = len(shape)
    if kind in ("Stack", "3D"):
        return ["Index", None, None]
    if kind == "1D":
        return ["Index", "PlotIndex", None][-n:]
    return ["Index"] * max(0, n - 2) + [None] * min(n, 2)


def expected(env, arr, types, eels):
    order, labels, flip = plan(arr.shape, types, eels)
    drop = tuple(i for i in range(arr.ndim) if i not in order)
    kept = [i for i in range(arr.ndim) if i not in drop]
    a = arr.reshape(tuple(arr.shape[i] for i in kept)).transpose([kept.index(i) for i in order])
    for k in flip:
        a = a[tuple(slice(None, None, -1) if j == k else slice(None) for j in range(a.ndim))]
    return a, order, labels, flip


def check_axes(env, s, order, labels, flip, calibs, same):
    axes_match(env, s)
    env.check([a["name"] for a in s["axes"]] == labels, "names of the axes")
    env.check([a["navigate"] for a in s["axes"]] == [l in NAV for l in labels], "navigation axes")
    for k, (ax, i) in enumerate(zip(s["axes"], order)):
        c = calibs[i]
        if c is None:
            env.check(not {"scale", "offset", "units"} & set(ax), "uncalibrated axis")
            continue
        sc = c["value"] * c.get("pixel_factor", 1) if "pixel_factor" in c else c["value"]
        off = c["offset"] * c["value"]
        if k in flip:
            off = -(off + (ax["size"] - 1) * sc)
        env.check(env.all(same(ax["scale"], sc), same(ax["offset"], off)), "scale and offset of each axis")
        env.check(ax["units"] == c["unit"], "units of each axis")


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def h_import(env, shape, types=None, kind="2D", eels=False, order="C", none=()):
    """import_pr itself, symbolic calibrations"""
    from rsciio.pantarhei._api import import_pr

    arr = env.array("a", shape, "int16")
    calibs = []
    for i in range(len(shape)):
        if i in none:
            calibs.append(None)
            continue
        c = {"name": "Length", "unit": "u%d" % i, "value": env.float("v%d" % i), "offset": env.float("o%d" % i)}
        if i != 1:
            c["pixel_factor"] = env.choose("f%d" % i, [1.0, 2.0, 256.0])
        calibs.append(c)
    md = {"type": kind, "device.calib": [None if c is None else dict(c) for c in calibs[::-1]]}
    if types is not None:
        md["content.types"] = types[::-1]
    if eels:
        md["filter.mode"] = "EELS"
    tt = types if types is not None else default_types(shape, kind)
    d = arr.T.copy().T if order == "F" else arr
    out = import_pr(d, md, "dir/x.prz")
    s = out[0]
    want, od, labels, flip = expected(env, arr, tt, eels)
    env.check(tuple(s["data"].shape) == tuple(want.shape), "shape: navigation first")
    env.check(env.same_array(env.nd(s["data"]), want), "every value")
    check_axes(env, s, od, labels, flip, calibs, env.same)
    n1 = sum(l not in NAV for l in labels) == 1
    env.check((s["metadata"].get("Signal") or {}).get("signal_type") == ("EELS" if eels and n1 else None), "signal type")
    env.cover("import")


def h_read(env, shape, types=None, kind="2D", eels=False, order="C", lazy=False, compressed=False, how="json", dtype="uint16", chunks="auto", allow=False):
    from rsciio.pantarhei import file_reader

    arr = env.array("a", shape, dtype)
    calibs = [{"name": "L", "value": 0.5 + i, "unit": "u%d" % i, "use_prefix": True, "offset": -1.5 * i, "pixel_factor": 2.0} for i in range(len(shape))]
    md = {"type": kind, "device.calib": calibs[::-1], "repo_id": "name.7", "ref_size": [2.0 * n for n in shape[::-1]], "size": list(shape[::-1])}
    md["acquisition.time"] = "2022-07-08T16:00:01"
    if types is not None:
        md["content.types"] = types[::-1]
    if eels:
        md["filter.mode"] = "EELS"
    n_ = env.numpy()
    d = arr.T.copy().T if order == "F" else arr
    kw = {"meta_data_json": np.array(json.dumps([md]))} if how == "json" else {}
    if how in ("pickle", "json"):
        kw["meta_data"] = np.array([md], dtype=object)
    (n_.savez_compressed if compressed else n_.savez)(env.path("x.npz"), data=d, **kw)
    f = env.file("x.prz", env.read_file(env.path("x.npz")))
    s = file_reader(f, lazy=lazy, chunks=chunks, allow_restricted_pickle=allow)[0]
    known = how == "json" or (how == "pickle" and allow)
    if not known:
        calibs = [None] * len(shape)
    want, od, labels, flip = expected(env, arr, (types if types is not None else default_types(shape, kind)) if known else default_types(shape, None), eels and known)
    env.check(tuple(s["data"].shape) == tuple(want.shape), "shape: navigation first")
    env.check(env.same_array(env.nd(s["data"]), want), "every value")
    env.check(np.dtype(s["data"].dtype) == np.dtype(dtype), "data type")
    check_axes(env, s, od, labels, flip, calibs, close)
    g = s["metadata"]["General"]
    env.check(g["original_filename"] == "x.prz", "file name")
    if known:
        env.check((g["title"], g["date"], g["time"]) == ("name", "2022-07-08", "16:00:01"), "title, date, time")
        if len(od) == len(shape):
            for k in ("device.calib", "ref_size", "size") + (("content.types",) if types is not None else ()):
                orig = {"device.calib": calibs, "ref_size": [2.0 * n for n in shape], "size": list(shape), "content.types": types}[k]
                env.check(list(s["original_metadata"][k]) == [orig[i] for i in od], "the original metadata follow the order of the axes")
    else:
        env.check(not s["original_metadata"], "no metadata without unpickling")
    env.cover("read")


MD = [
    ("electron_gun.voltage", 200000.0, ("beam_energy",), 200.0),
    ("condenser.convergence_semi_angle", 0.02, ("convergence_angle",), 20.0),
    ("filter.collection_semi_angle", 0.06, ("Detector", "EELS", "collection_angle"), 60.0),
    ("filter.aperture", "5 mm", ("Detector", "EELS", "aperture"), 5.0),
    ("projector.camera_length", 0.25, ("camera_length",), 0.25),
]


def h_meta(env):
    """instrument values"""
    from rsciio.pantarhei._api import import_pr

    src = env.choose("source", ["scan_generator", "camera", None])
    md = {"type": "2D"}
    on = [env.bool("has%d" % i) for i in range(len(MD))]
    on = [bool(b) for b in on]
    for b, (k, v, p, w) in zip(on, MD):
        if b:
            md[k] = v
    shift = env.choose("shift", [None, ("filter.ht_offset", 300.0), ("electron_gun.voltage_offset", -500.0), ("filter.ht_offset", 250.0, "electron_gun.voltage_offset", 90.0)])
    if shift:
        md.update(zip(shift[::2], shift[1::2]))
    if src:
        md["source.type"] = src
    md["scan_driver.magnification"], md["projector.magnification"] = 1000.0, 5000.0
    when = env.choose("time", [None, ("acquisition.time", "2022-07-08T16:00:01.5"), ("camera.time", "2021-01-02T03:04:05"), ("acquisition.time", "2022-07-08T16:00:01.5", "camera.time", "2021-01-02T03:04:05")])
    if when:
        md.update(zip(when[::2], when[1::2]))
    m = import_pr(np.zeros((2, 3)), dict(md), None)[0]["metadata"]
    t = (m.get("Acquisition_instrument") or {}).get("TEM") or {}
    for b, (k, v, p, w) in zip(on, MD):
        x = t
        for q in p:
            x = x.get(q) if isinstance(x, dict) else None
        if p == ("beam_energy",) and shift:
            w = w + shift[1] / 1000
        env.check(x is None if not b else close(x, w), "value of " + p[-1])
    env.check(t.get("acquisition_mode") == {"scan_generator": "STEM", "camera": "TEM", None: None}[src], "acquisition mode")
    env.check(t.get("magnification") == {"scan_generator": 1000.0, "camera": 5000.0, None: None}[src], "magnification of the mode")
    g = m.get("General") or {}
    env.check((g.get("date"), g.get("time")) == (None if when is None else when[1].split("T")[0], None if when is None else {".5": "16:00:01.500000", "05": "03:04:05"}[when[1][-2:]]), "date and time")
    env.cover("meta")


def base_unit(u):
    pre = {"n": 1e-9, "u": 1e-6, "µ": 1e-6, "m": 1e-3, "p": 1e-12}
    return (u[1:], pre[u[0]]) if len(u) > 1 and u[0] in pre and u[1:] in ("m", "A", "V", "rad", "s", "eV") else (u, 1.0)


def h_again(env, shape, types, kind, eels, lazy):
    """a file read, written and read again"""
    from rsciio.pantarhei import file_reader, file_writer

    arr = env.array("a", shape, "int16")
    k = env.choose("binning", [1, 2, 4])
    calibs = [{"name": "L", "value": 0.5 + i, "unit": "u%d" % i, "use_prefix": True, "offset": -1.5 * i, "pixel_factor": float(k)} for i in range(len(shape))]
    md = {"type": kind, "device.calib": calibs[::-1], "repo_id": "name.7", "ref_size": [k * n for n in shape[::-1]], "size": list(shape[::-1]), "electron_gun.voltage": 2e5, "some.thing": 3}
    if types is not None:
        md["content.types"] = types[::-1]
    if eels:
        md["filter.mode"] = "EELS"
    env.numpy().savez(env.path("x.npz"), data=arr, meta_data_json=np.array(json.dumps([md])), meta_data=np.array([md], dtype=object))
    f = env.file("x.prz", env.read_file(env.path("x.npz")))
    s = file_reader(f, lazy=lazy)[0]
    s.setdefault("original_metadata", {})
    for i, a in enumerate(s["axes"]):
        a["index_in_array"] = i
    file_writer(env.path("y.prz"), s)
    r = file_reader(env.path("y.prz"), lazy=lazy, allow_restricted_pickle=True)[0]
    env.check(tuple(r["data"].shape) == tuple(s["data"].shape) and env.same_array(env.nd(r["data"]), env.nd(s["data"])), "every value")
    want, od, labels, flip = expected(env, arr, types if types is not None else default_types(shape, kind), eels)
    env.check(env.same_array(env.nd(r["data"]), want), "every value of the first file")
    for a, b in zip(s["axes"], r["axes"]):
        env.check(a["name"] == b["name"] and a["navigate"] == b["navigate"] and a["size"] == b["size"] and a["units"] == b["units"], "name, role and unit of the axis")
        env.check(close(a["scale"], b["scale"]) and close(a["offset"], b["offset"]), "calibration of the axis")
    for q in ("ref_size", "electron_gun.voltage", "some.thing", "repo_id"):
        env.check(r["original_metadata"].get(q) == s["original_metadata"].get(q), "original metadata")
    ic = r["original_metadata"]["inherited.calib"]
    for a, c in zip(s["axes"], ic):
        env.check(close(c["value"] * k, a["scale"]) and close(c["offset"] * c["value"], a["offset"] * (1 if a["name"] not in flip_names(flip, labels) else -1) - (0 if a["name"] not in flip_names(flip, labels) else (a["size"] - 1) * a["scale"])), "calibration per unbinned pixel")
    env.cover("again")


def flip_names(flip, labels):
    return [labels[i] for i in flip]


def h_write(env, shape, dtype="int16", nav=0, names=None, md=False, lazy=False, order="C", eels=False, mode="STEM", title="sample"):
    """a signal written and read back"""
    from rsciio.pantarhei import file_reader, file_writer

    arr = env.array("a", shape, dtype)
    d = arr.T.copy().T if order == "F" else arr
    axes = [{"size": n, "name": (names or [""] * len(shape))[i], "navigate": i < nav, "index_in_array": i, "scale": 0.5 * (i + 1), "offset": -1.0 * i, "units": ["nm", "eV", "um", ""][i]} for i, n in enumerate(shape)]
    m = {"General": {"title": title, "date": "2022-07-08", "time": "16:00:00"}, "Signal": {"signal_type": "EELS" if eels else ""}}
    tem = {"beam_energy": 200.0, "acquisition_mode": mode, "magnification": 500000, "camera_length": 200, "convergence_angle": 20.0, "Detector": {"EELS": {"collection_angle": 60.0, "aperture": env.choose("aperture", [5, 2.5, "Out", "5 mm"]) if md else 5}}}
    if md:
        m["Acquisition_instrument"] = {"TEM": tem}
    import copy

    m0, a0 = copy.deepcopy(m), copy.deepcopy(axes)
    file_writer(env.path("x.prz"), {"data": d, "axes": axes, "metadata": m, "original_metadata": {}})
    env.check((m, axes) == (m0, a0), "the signal itself is not changed")
    s = file_reader(env.path("x.prz"), lazy=lazy, allow_restricted_pickle=True)[0]
    env.check(tuple(s["data"].shape) == tuple(shape), "shape")
    env.check(np.dtype(s["data"].dtype) == np.dtype(dtype), "data type")
    env.check(env.same_array(env.nd(s["data"]), arr), "every value")
    axes_match(env, s)
    for a, b in zip(axes, s["axes"]):
        base, k = base_unit(a["units"])
        env.check(close(b["scale"], a["scale"] * k) and close(b["offset"], a["offset"] * k) and b["units"] == base, "calibration of each axis")
    g = s["metadata"]["General"]
    env.check((g["title"], g["date"], g["time"]) == (title, "2022-07-08", "16:00:00"), "title, date and time")
    if len(shape) > 1 and len(shape) - nav in (1, 2) and not (len(shape) == 2 and nav == 0):
        env.check([a["navigate"] for a in s["axes"]] == [a["navigate"] for a in axes], "navigation axes")
    if eels and len(shape) - nav == 1:
        env.check(s["metadata"]["Signal"]["signal_type"] == "EELS", "signal type")
    if md:
        t = s["metadata"]["Acquisition_instrument"]["TEM"]
        for k in ("beam_energy", "magnification", "camera_length", "convergence_angle"):
            env.check(close(t[k], tem[k]), "value of " + k)
        env.check(t["acquisition_mode"] == mode, "acquisition mode")
        e = t["Detector"]["EELS"]
        ap = tem["Detector"]["EELS"]["aperture"]
        env.check(close(e["collection_angle"], 60.0) and e["aperture"] == (5.0 if ap == "5 mm" else ap), "EELS detector")
    pr = s["original_metadata"]
    cal = pr["inherited.calib"]
    env.check(len(cal) == len(shape), "one calibration per axis")
    env.cover("write")


def h_calib(env, shape, units):
    """calibrations as PantaRhei stores them: in pixels and base units"""
    from rsciio.pantarhei._api import export_pr

    axes = [{"size": n, "name": "", "navigate": False, "index_in_array": i, "scale": env.choose("s%d" % i, [0.5, 2.0, 1e-3]), "offset": env.choose("o%d" % i, [0.0, 4.0, -0.25]), "units": units[i]} for i, n in enumerate(shape)]
    data, md = export_pr({"data": np.zeros(shape), "axes": axes, "metadata": {"General": {}}, "original_metadata": {}})
    cal = md["inherited.calib"][::-1]
    for a, c in zip(axes, cal):
        u = a["units"]
        base, f = base_unit(u)
        env.check(c["unit"] == base and close(c["value"], a["scale"] * f), "scale in the base unit")
        env.check(close(c["offset"] * c["value"], a["offset"] * f), "offset")
    env.check(tuple(md["ref_size"]) == tuple(shape[::-1]), "size")
    env.cover("write")


class Evil:
    def __init__(self, mod, name, args):
        self.m, self.n, self.a = mod, name, args


GLOBALS = ["builtins.eval", "builtins.exec", "builtins.getattr", "builtins.__import__", "os.system", "posix.system", "subprocess.Popen", "subprocess.call", "numpy.load", "numpy.save", "numpy.fromfile", "numpy.core.numeric.fromfile", "numpy._core.multiarray.fromfile", "numpy._core.multiarray.array", "numpy.core.multiarray.frombuffer", "numpy.testing._private.utils.runstring", "numpy.f2py.compile", "_codecs.decode", "_codecs.lookup", "_codecs.register", "codecs.open", "pathlib.Path", "pickle.loads", "io.open", "_io.open", "operator.attrgetter", "functools.partial", "importlib.import_module", "numpy.ndarray.tofile", "numpy.memmap", "shutil.rmtree", "ctypes.CDLL", "copyreg._reconstructor", "numpy.dtype.fields", "types.CodeType"]
ALLOWED = {("numpy._core.multiarray", "_reconstruct"), ("numpy._core.multiarray", "scalar"), ("numpy.core.multiarray", "_reconstruct"), ("numpy.core.multiarray", "scalar"), ("numpy", "ndarray"), ("numpy", "dtype"), ("_codecs", "encode")}


def npy_object(payload):
    b = io.BytesIO()
    np.lib.format.write_array_header_1_0(b, {"descr": "|O", "fortran_order": False, "shape": (1,)})
    b.write(payload)
    b.seek(0)
    return b


def h_unpickle(env, op):
    """no name outside the list is ever looked up or called"""
    from rsciio.pantarhei import _restricted_unpickling as r

    full = env.choose("name", GLOBALS)
    mod, name = full.rsplit(".", 1)
    looked = []
    orig = pickle.Unpickler.find_class

    if op == "global":
        p = b"\x80\x02c" + mod.encode() + b"\n" + name.encode() + b"\n."
    elif op == "stack":
        p = b"\x80\x04\x8c" + bytes([len(mod)]) + mod.encode() + b"\x8c" + bytes([len(name)]) + name.encode() + b"\x93."
    elif op == "inst":
        p = b"(i" + mod.encode() + b"\n" + name.encode() + b"\n."
    elif op == "nested":
        p = b"\x80\x02}q\x00X\x01\x00\x00\x00a(c" + mod.encode() + b"\n" + name.encode() + b"\nlsb."
        p = b"\x80\x02](K\x01c" + mod.encode() + b"\n" + name.encode() + b"\ne."
    elif op == "dotted":
        head, _, tail = full.partition(".")
        p = b"\x80\x04\x8c" + bytes([len(head)]) + head.encode() + b"\x8c" + bytes([len(tail)]) + tail.encode() + b"\x93."
        mod, name = head, tail
    res, err = env.attempt(lambda: r.read_pickled_array(npy_object(p)))
    env.check(isinstance(err, r.InvalidPickleError), "refused")
    env.cover("unpickle")


def h_unpickle_names(env, kind):
    """any name of the given form which is not in the list is refused"""
    from rsciio.pantarhei import _restricted_unpickling as r

    mods = sorted({m for m, n in ALLOWED} | {"builtins", "os", "numpy.core", "numpy._core", ""})
    names = sorted({n for m, n in ALLOWED} | {"eval", "system", "load", "", "ndarray.tofile"})
    m = env.choose("module", mods)
    n = env.choose("name", names)
    u = r.RestrictedUnpickler(io.BytesIO(b"\x80\x02N."))
    res, err = env.attempt(lambda: u.find_class(m, n))
    if (m, n) in ALLOWED:
        env.check(not isinstance(err, r.InvalidPickleError), "listed names are allowed")
    else:
        env.check(isinstance(err, r.InvalidPickleError), "other names are refused")
    env.cover("unpickle")


def h_unpickle_ok(env):
    from rsciio.pantarhei import _restricted_unpickling as r

    md = {"a": 1, "b": [1.5, None, True, "x"], "c": {"d": (1, 2)}, "e": np.float64(2.5), "f": np.arange(6).reshape(2, 3), "g": np.array([1, 2], ">u2"), "h": b"\x00\xff", "i": np.int32(7), "j": np.bool_(True), "k": np.array(["x", "yz"])}
    b = io.BytesIO()
    p = env.choose("protocol", [2, 3, 4])
    np.lib.format.write_array_header_1_0(b, {"descr": "|O", "fortran_order": False, "shape": (1,)})
    pickle.dump(np.array([md], dtype=object), b, protocol=p)
    b.seek(0)
    got = r.read_pickled_array(b)[0]
    env.check(list(got) == list(md), "keys")
    for k, v in md.items():
        w = got[k]
        env.check(type(w) is type(v) and (np.array_equal(w, v) and w.dtype == v.dtype.newbyteorder('=') if isinstance(v, np.ndarray) else w == v), "value " + k)
    b = io.BytesIO()
    np.save(b, np.arange(3))
    b.seek(0)
    res, err = env.attempt(lambda: r.read_pickled_array(b))
    env.check(isinstance(err, ValueError), "plain arrays are refused")
    env.cover("unpickle")


CASES = {
    "image": dict(shape=(2, 3)),
    "image of one row": dict(shape=(1, 3)),
    "image of one column": dict(shape=(3, 1)),
    "stack": dict(shape=(2, 2, 3), kind="Stack"),
    "3D": dict(shape=(2, 3, 2), kind="3D"),
    "stack of one": dict(shape=(1, 2, 3), kind="Stack"),
    "spectra": dict(shape=(3, 4), kind="1D"),
    "spectra 3": dict(shape=(2, 3, 2), kind="1D"),
    "one spectrum": dict(shape=(1, 4), kind="1D"),
    "one spectrum 3": dict(shape=(1, 1, 4), kind="1D"),
    "volume": dict(shape=(2, 3, 2), kind=None),
    "four": dict(shape=(2, 1, 2, 2), kind=None),
    "camera": dict(shape=(2, 3), types=["CameraY", "CameraX"]),
    "camera turned": dict(shape=(2, 3), types=["CameraX", "CameraY"]),
    "map": dict(shape=(4, 2, 3), types=["Energy", "ScanY", "ScanX"], eels=True),
    "map energy last": dict(shape=(2, 3, 4), types=["ScanY", "ScanX", "Energy"], eels=True),
    "map without EELS": dict(shape=(4, 2, 3), types=["Energy", "ScanY", "ScanX"]),
    "map turned": dict(shape=(3, 2, 2), types=["ScanX", "ScanY", "Energy"], eels=True),
    "4D": dict(shape=(2, 3, 2, 2), types=["CameraY", "CameraX", "ScanY", "ScanX"]),
    "4D scan first": dict(shape=(2, 2, 2, 3), types=["ScanY", "ScanX", "CameraY", "CameraX"]),
    "energy and camera": dict(shape=(3, 4), types=["CameraY", "Energy"], eels=True),
    "energy series": dict(shape=(3, 1, 4), types=["Index", "PlotIndex", "Energy"], eels=True, kind="1D"),
    "energy 1D": dict(shape=(3, 4), types=["Energy"], kind="1D", short=True),
    "pixels": dict(shape=(3, 4), types=["Index", "Pixel"]),
    "star": dict(shape=(3, 4), types=["*", "Index"]),
    "other": dict(shape=(3, 4), types=["Time", "ScanX"]),
    "one row scan": dict(shape=(1, 3, 2), types=["ScanY", "ScanX", "Energy"]),
}


NOT_AGAIN = ["stack of one", "one spectrum", "one spectrum 3", "four", "map", "map energy last", "map without EELS", "map turned", "4D", "4D scan first", "energy series", "energy and camera", "other", "one row scan"]
KNOWN = {
    "F101": lambda env: h_write(env, (2, 3), title="a.b"),
    "F102": lambda env: h_write(env, (2, 3), nav=1, names=["", "Energy loss"]),
    "F103": lambda env: h_write(env, (2, 3, 2), nav=2, names=["ScanY", "ScanX", "Energy"]),
    "F164": lambda env: h_again(env, lazy=False, kind="2D", **CASES["map"]),
    "F165": lambda env: h_again(env, lazy=False, types=None, eels=False, **CASES["stack of one"]),
    "F166": lambda env: h_again(env, lazy=False, types=None, eels=False, **CASES["four"]),
}


def harnesses(tier):
    hs = []
    B = "every value, scale and offset; the shapes, content types and metadata named"
    for nm, c in CASES.items():
        c = dict(c)
        if c.pop("short", False):
            continue
        hs.append(H("import " + nm, h_import, c, 90, F, B, ["import"]))
        hs.append(H("import F " + nm, h_import, dict(c, order="F", none=(0,)), 90, F, B, ["import"]))
        for lz in (False, True):
            for comp in (False, True):
                hs.append(H("read %s%s%s" % (nm, " lazy" * lz, " compressed" * comp), h_read, dict(c, lazy=lz, compressed=comp), 60, F, B, ["read"]))
    for lz in (False, True):
        for o in ("C", "F"):
            for dt in ("uint8", "uint16", "int32", "float32", ">u2", "float64"):
                hs.append(H("read %s %s%s" % (dt, o, " lazy" * lz), h_read, dict(shape=(2, 3), dtype=dt, order=o, lazy=lz), 60, F, B, ["read"]))
            hs.append(H("read map %s%s" % (o, " lazy" * lz), h_read, dict(CASES["map"], order=o, lazy=lz), 60, F, B, ["read"]))
        for how, al in (("pickle", True), ("pickle", False), ("none", False), ("json", True)):
            hs.append(H("read %s %s%s" % (how, al, " lazy" * lz), h_read, dict(CASES["map"], how=how, allow=al, lazy=lz), 60, F + U, B, ["read"]))
    for ch in ((1, 2, 3), (2, 1, 1), ((1, 3), (2,), (1, 2))):
        hs.append(H("read chunks %s" % (ch,), h_read, dict(CASES["map"], lazy=True, chunks=ch), 60, F, B, ["read"]))
    hs.append(H("instrument", h_meta, {}, 120, F, B, ["meta"]))
    for lz in (False, True):
        for o in ("C", "F"):
            for sh, nav in (((4,), 0), ((2, 3), 0), ((2, 3), 1), ((2, 3, 2), 1), ((2, 2, 3), 2), ((1, 3), 0), ((3, 1), 1)):
                hs.append(H("write %s nav %d %s%s" % (sh, nav, o, " lazy" * lz), h_write, dict(shape=sh, nav=nav, lazy=lz, order=o), 60, F, B, ["write"]))
        for dt in ("uint8", "float32", "float64", ">i2", "uint32"):
            hs.append(H("write %s%s" % (dt, " lazy" * lz), h_write, dict(shape=(2, 3), dtype=dt, lazy=lz), 60, F, B, ["write"]))
    for mode in ("STEM", "TEM"):
        hs.append(H("write metadata " + mode, h_write, dict(shape=(2, 3), nav=1, md=True, eels=True, mode=mode), 60, F, B, ["write"]))
    for lz in (False, True):
        for nm, nav, sh in ((["Energy loss"], 0, (4,)), (["Energy"], 0, (3,)), (["ScanY", "Energy loss"], 1, (2, 3))):
            for eels in (True, False):
                hs.append(H("write %s %s%s" % ("+".join(nm), eels, " lazy" * lz), h_write, dict(shape=sh, names=nm, nav=nav, eels=eels, lazy=lz), 60, F, B, ["write"]))
    for nm, c in CASES.items():
        c = dict(c)
        if c.pop("short", False) or nm in NOT_AGAIN:
            continue
        for lz in (False, True):
            hs.append(H("again %s%s" % (nm, " lazy" * lz), h_again, dict({"types": None, "kind": "2D", "eels": False}, **c, lazy=lz), 60, F, B, ["again"]))
    for t in ("ab", "x y"):
        hs.append(H("write title " + t, h_write, dict(shape=(2, 3), title=t), 60, F, B, ["write"]))
    for un in (("nm", "eV"), ("µm", "mrad"), ("um", "ms"), ("pm", "nA"), ("1/nm", "m"), ("m", "mV"), ("", "mm")):
        hs.append(H("calibration %s %s" % un, h_calib, dict(shape=(2, 3), units=un), 60, F, B, ["write"]))
    for op in ("global", "stack", "inst", "nested", "dotted"):
        hs.append(H("unpickle " + op, h_unpickle, dict(op=op), 60, U, "the names listed", ["unpickle"]))
    hs.append(H("unpickle names", h_unpickle_names, dict(kind=0), 60, U, "the names listed", ["unpickle"]))
    hs.append(H("unpickle allowed", h_unpickle_ok, {}, 60, U, "the values listed", ["unpickle"]))
    return hs
