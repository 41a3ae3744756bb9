"""Velox EMD files and the FEI spectrum stream."""
import json
import os
import time

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "h5py is trusted for storage: the real h5py runs on a scratch file, symbolic contents are kept beside it; the plain h5py on replay",
    "the sparse array of lazy maps is modelled as a dense array with the same sum of duplicates (sparse is a library outside the repository)",
    "the JSON metadata is concrete; a stream holds channel numbers below the number of channels and gates (65535)",
]
G = 65535
SF = ["rsciio.utils._fei_stream_readers"]
VF = ["rsciio.emd._emd_velox.FeiEMDReader", "FeiSpectrumStream"] + SF


def counts(env, stream, shape, channels, rebin, first, last, total):
    """expected[frame][pixel][channel] by counting the gates before each value"""
    n = shape[0] * shape[1]
    frames = last - first
    exp = [[[0] * (channels // rebin) for _ in range(n)] for _ in range(frames)]
    gates = 0
    for v in stream:
        sym = env.is_sym(v) or env.is_sym(gates)
        if not sym:
            if v == G:
                gates += 1
                continue
            f, p = divmod(gates, n)
            if first <= f < last:
                exp[f - first][p][v // rebin] = exp[f - first][p][v // rebin] + 1
            continue
        for f in range(frames):
            for p in range(n):
                k = (f + first) * n + p
                if not env.is_sym(gates) and gates != k:
                    continue
                for c in range(channels // rebin):
                    cond = [gates == k] if env.is_sym(gates) else []
                    cond += [v != G, v // rebin == c] if env.is_sym(v) else [v != G and v // rebin == c]
                    exp[f][p][c] = exp[f][p][c] + env.ite(env.all(*cond), 1, 0)
        gates = gates + (env.ite(v == G, 1, 0) if env.is_sym(v) else int(v == G))
    return exp


def total(exp):
    return [[[sum(exp[f][p][c] for f in range(len(exp))) for c in range(len(exp[0][0]))] for p in range(len(exp[0]))]]


def compare(env, data, exp, shape, sum_frames, what):
    d = env.nd(data)
    if sum_frames:
        exp = total(exp)
    n, ch = len(exp), len(exp[0][0])
    want = tuple(shape) + (ch,) if sum_frames else (n,) + tuple(shape) + (ch,)
    env.check(tuple(int(i) for i in d.shape) == want, what + ": shape")
    ok = []
    for f in range(n):
        x = d if sum_frames else d[f]
        for p in range(shape[0] * shape[1]):
            for c in range(ch):
                ok.append(x[p // shape[1], p % shape[1], c] == exp[f][p][c])
    env.check(env.all(*ok), what + ": every count in its frame, pixel and channel")


def h_stream(env, shape, channels, length, rebin, first, last, sum_frames, mode, gates=None):
    import rsciio.utils._fei_stream_readers as r

    sparse_stub(env)
    vals = []
    for i in range(length):
        if gates and i in gates:
            vals.append(G)
            continue
        v = env.int("v%d" % i, 0, G)
        env.assume(env.any(v < channels, v == G) if gates is None else v < channels)
        vals.append(v)
    st = env.from_cells([c for v in vals for c in env.pack("<H", v)], "uint16")
    if mode == "sparse":
        out = r.stream_to_sparse_COO_array(st, shape, channels, last, rebin_energy=rebin, sum_frames=sum_frames, first_frame=first)
    elif mode == "add":
        sh = tuple(shape) + (channels // rebin,)
        base = env.array("base", sh if sum_frames else (last - first,) + sh, "uint16", 0, 1000)
        ref = base.copy()
        out = r.stream_to_array(st, shape, channels, last, first_frame=first, rebin_energy=rebin, sum_frames=sum_frames, spectrum_image=base) - ref
    else:
        out = r.stream_to_array(st, shape, channels, last, first_frame=first, rebin_energy=rebin, sum_frames=sum_frames, dtype="uint16")
    compare(env, out, counts(env, vals, shape, channels, rebin, first, last, None), shape, sum_frames, "stream")
    env.cover("stream")


def h_rt(env, shape, frames, mode):
    """an array written as a stream"""
    import rsciio.utils._fei_stream_readers as r

    sparse_stub(env)
    sh = ((frames,) if frames else ()) + shape
    a = env.array("a", sh, "uint16", 0, 2 if prod(sh) < 7 else 1)
    st = r.array_to_stream(a)
    st = st.astype("uint16")
    if mode == "dense":
        b = r.stream_to_array(st, shape[:2], shape[2], frames or 1, sum_frames=not frames)
    else:
        b = r.stream_to_sparse_COO_array(st, shape[:2], shape[2], frames or 1, sum_frames=not frames)
    env.check(env.same_array(env.nd(b).astype("uint16"), a), "the array comes back")
    env.cover("stream")


# ------------------------------------------------------------------ files
def js(d):
    return json.dumps(d).encode()


def meta(detector="SuperXG", index=0, unit="m", px=2e-9, py=2.5e-9, ox=-1e-8, oy=3e-8, frame_time=1.5, ndet=2, date="1512000000"):
    m = {
        "BinaryResult": {"PixelSize": {"width": str(px), "height": str(py)}, "Offset": {"x": str(ox), "y": str(oy)}, "PixelUnitX": unit, "PixelUnitY": unit, "Detector": detector, "DetectorIndex": str(index)},
        "Detectors": {"Detector-%d" % i: {"DetectorName": ["HAADF", "SuperXG1", "SuperXG2", "Ceta"][i], "Dispersion": str(5 + i), "OffsetEnergy": str(-250 + 10 * i), "ExposureTime": "0.75"} for i in range(4)},
        "Acquisition": {"AcquisitionStartDatetime": {"DateTime": date}},
        "Scan": {"FrameTime": str(frame_time)} if frame_time else {},
        "Optics": {"AccelerationVoltage": "200000", "CameraLength": "0.115"},
        "Stage": {"AlphaTilt": "0.1", "BetaTilt": "-0.2", "Position": {"x": "1e-5", "y": "-2e-5", "z": "3e-6"}},
        "CustomProperties": {"StemMagnification": {"value": "12000"}},
        "Instrument": {"InstrumentClass": "Titan"},
    }
    return m


def put_meta(g, m, n=1):
    b = np.frombuffer(js(m).ljust(2000, b"\0"), "u1")
    g.create_dataset("Metadata", data=np.stack([b] * n, 1))


def text(g, name, d):
    import h5py

    g.create_dataset(name, data=np.array([js(d)], dtype=object), dtype=h5py.special_dtype(vlen=bytes))


def open_velox(env, version):
    import h5py

    f = h5py.File(env.path("v.emd"), "w")
    text(f, "Version", {"format": "Velox", "version": str(version)})
    f.require_group("Data")
    return f


def add_image(f, key, arr, m):
    g = f.require_group("Data/Image/" + key)
    g.create_dataset("Data", data=arr, chunks=True)
    put_meta(g, m, arr.shape[-1])


SI = {"m": 1.0, "mm": 1e-3, "µm": 1e-6, "nm": 1e-9, "pm": 1e-12, "s": 1.0, "ms": 1e-3, "µs": 1e-6, "min": 60.0, "ks": 1e3, "1 / m": 1.0, "1 / nm": 1e9, "1 / µm": 1e6, "1/m": 1.0, "1/nm": 1e9, "1/µm": 1e6, "": 1.0}


def isclose(a, b):
    return abs(a - b) <= 1e-6 * abs(b) + 1e-30


def phys(env, ax, scale, offset, what, first=None):
    u = SI[ax["units"]]
    env.check(isclose(float(ax["scale"]) * u, scale), what + ": scale in its unit")
    env.check(isclose(float(ax["offset"]) * u, offset), what + ": offset in its unit")


def spatial(env, axes, px, py, ox, oy):
    ay, ax = axes
    env.check((ay["name"], ax["name"]) == ("y", "x"), "names of the axes")
    env.check(ay["units"] == ax["units"], "the same unit along x and y")
    phys(env, ax, px, ox, "x")
    phys(env, ay, py, oy, "y")


def h_image(env, shape, dtype, lazy, version=11, tem=False):
    from rsciio.emd import file_reader

    y, x, n = shape
    f = open_velox(env, version)
    px, py, ox, oy = env.choose("pixel", [(2e-9, 2.5e-9, -1e-8, 3e-8), (3e-6, 1e-6, 1e-3, -2e-6), (5e-12, 5e-12, 0.0, 1e-12)])
    idx = env.choose("index", [0, 3])
    m = meta(px=px, py=py, ox=ox, oy=oy, index=idx, frame_time=None if tem else 1.5)
    arrs = {}
    for k in ("aa", "bb"):
        if dtype == "complex":
            re_, im = env.array("re" + k, shape, "float32"), env.array("im" + k, shape, "float32")
            arrs[k] = (re_, im)
        else:
            arrs[k] = env.array("d" + k, shape, dtype)
            add_image(f, k, arrs[k], m)
    f["Data/Image"].attrs["x"] = 1
    if version >= 11:
        for i, k in enumerate(("aa", "bb")):
            g = f.require_group("Displays/ImageDisplay")
            text(g, "d%d" % i, {"data": "/SharedProperties/ImageSeriesDataReference/r%d" % i, "id": "El%d" % i})
            text(f.require_group("SharedProperties/ImageSeriesDataReference"), "r%d" % i, {"dataPath": "/Data/Image/" + k})
    f.close()
    out = file_reader(env.path("v.emd"), lazy=lazy)
    env.check(len(out) == 2, "every image")
    for s, k in zip(out, ("aa", "bb")):
        d = env.nd(s["data"])
        a = arrs[k]
        env.check(tuple(d.shape) == ((n, y, x) if n > 1 else (y, x)), "shape: frame, y, x")
        want = np.dtype(s["data"].dtype)
        env.check(want == np.dtype(dtype) or not lazy, "data type")
        a = a.astype(want)
        env.check(env.all(*[env.same(d[t, j, i] if n > 1 else d[j, i], a[j, i, t]) for t in range(n) for j in range(y) for i in range(x)]), "every pixel")
        axes_match(env, s)
        spatial(env, s["axes"][-2:], px, py, ox, oy)
        if n > 1:
            phys(env, s["axes"][0], 0.75 if tem else 1.5, 0, "time")
            env.check(s["axes"][0]["navigate"] is True, "frames are navigation")
        env.check(s["metadata"]["General"]["title"] == ["HAADF", None, None, "Ceta"][idx], "title is the detector")
        env.check(s["original_metadata"]["DetectorMetadata"] == m["Detectors"]["Detector-%d" % idx], "its own detector")
        mp = s["mapping"]
        om = s["original_metadata"]
        for path, key, want in MAPS:
            t, fn = mp[path]
            v = dget(om, path)
            env.check(t == key and (fn(v) if fn else v) == want, "metadata " + key)
    env.cover("image")


T = "Acquisition_instrument.TEM."
MAPS = [
    ("Optics.AccelerationVoltage", T + "beam_energy", 200.0),
    ("Optics.CameraLength", T + "camera_length", 115.0),
    ("CustomProperties.StemMagnification.value", T + "magnification", 12000.0),
    ("Instrument.InstrumentClass", T + "microscope", "Titan"),
    ("Stage.AlphaTilt", T + "Stage.tilt_alpha", 5.73),
    ("Stage.BetaTilt", T + "Stage.tilt_beta", -11.459),
    ("Stage.Position.x", T + "Stage.x", 1e-5),
    ("Stage.Position.y", T + "Stage.y", -2e-5),
    ("Stage.Position.z", T + "Stage.z", 3e-6),
]


def h_si(env, shape, frames, detectors, lazy, sum_frames, sum_det, rebin=1, first=0, last=None, known=True, stack=False, final_gate=False, select=None, dtype=None, version=11):
    from rsciio.emd import file_reader

    sparse_stub(env)
    ch = 4
    n = shape[0] * shape[1]
    f = open_velox(env, version)
    px, py, ox, oy = 2e-9, 2.5e-9, -1e-8, 3e-8
    m0 = meta(px=px, py=py, ox=ox, oy=oy, index=0, detector="HAADF")
    img = env.array("img", shape + (frames,), "uint16")
    add_image(f, "im", img, m0)
    text(f.require_group("Displays/ImageDisplay"), "d", {"data": "/SharedProperties/ImageSeriesDataReference/r", "id": "HAADF map"})
    text(f.require_group("SharedProperties/ImageSeriesDataReference"), "r", {"dataPath": "/Data/Image/im"})
    spec = env.array("spec", (ch, 1), "uint32")
    g = f.require_group("Data/Spectrum/s1")
    g.create_dataset("Data", data=spec, chunks=True)
    put_meta(g, meta(index=1, detector="SuperXG1"))
    if version:
        g = f.require_group("Data/SpectrumImage/si")
        if known:
            text(g, "SpectrumImageSettings", {"endFramePosition": str(frames)})
    exps = []
    a, b = first, frames if last is None else last
    for k in range(detectors):
        vals = []
        for i in range(frames * n):
            if (i + k) % 2 == 0:
                vals.append(env.int("e%d_%d" % (k, i), 0, ch - 1))
            if i % 3 == 0:
                vals += [k % ch, env.int("f%d_%d" % (k, i), 0, ch - 1)]
            if i < frames * n - 1 or final_gate:
                vals.append(G)
        g = f.require_group("Data/SpectrumStream/k%d" % k)
        g.create_dataset("Data", data=env.from_cells([c for v in vals for c in env.pack("<H", v)], "uint16", (len(vals), 1)), chunks=True)
        text(g, "AcquisitionSettings", {"bincount": str(ch), "StreamEncoding": "uint16"})
        put_meta(g, meta(px=px, py=py, ox=ox, oy=oy, index=1 + k, detector="SuperXG%d" % (k + 1)))
        exps.append(counts(env, vals, shape, ch, rebin, a, b, None))
    f.close()
    kw = {}
    if last is not None:
        kw["last_frame"] = last
    if dtype:
        kw["SI_dtype"] = dtype
    out = file_reader(env.path("v.emd"), lazy=lazy, sum_frames=sum_frames, sum_EDS_detectors=sum_det, rebin_energy=rebin, first_frame=first, load_SI_image_stack=stack, select_type=select, **kw)
    k = 0
    if select in (None, "single_spectrum"):
        s = out[k]
        k += 1
        d = env.nd(s["data"])
        env.check(tuple(d.shape) == (ch,) and env.all(*[d[i] == spec[i, 0] for i in range(ch)]), "single spectrum")
        e = s["axes"][-1]
        env.check(isclose(e["scale"], 0.006 * rebin) if rebin == 1 else True, "calibration of the single spectrum")
        env.check(isclose(e["offset"], -0.24) and e["units"] == "keV", "offset of the single spectrum")
    if select in (None, "images"):
        s = out[k]
        k += 1
        d = env.nd(s["data"])
        fr = frames if stack and frames > 1 else 1
        env.check(tuple(d.shape) == (((fr,) if fr > 1 else ()) + shape), "shape of the images")
        env.check(env.all(*[(d[t, j, i] if fr > 1 else d[j, i]) == img[j, i, t] for t in range(fr) for j in range(shape[0]) for i in range(shape[1])]), "images")
        env.check(s["metadata"]["General"]["title"] == "HAADF map", "label of the image")
        spatial(env, s["axes"][-2:], px, py, ox, oy)
    if select in (None, "spectrum_image"):
        sis = out[k:]
        k += len(sis)
        env.check(len(sis) == (1 if sum_det else detectors), "one map, or one per detector")
        if sum_det:
            e0 = [[[sum(e[t][p][c] for e in exps) for c in range(ch // rebin)] for p in range(n)] for t in range(b - a)]
            exps = [e0]
        for i, (s, e) in enumerate(zip(sis, exps)):
            compare(env, s["data"], e, shape, sum_frames, "map")
            if dtype:
                env.check(np.dtype(s["data"].dtype) == np.dtype(dtype), "data type asked for")
            axes_match(env, s)
            spatial(env, s["axes"][-3:-1], px, py, ox, oy)
            en = s["axes"][-1]
            # all detectors share the axes of the first one
            env.check(isclose(en["scale"], 0.006 * rebin) and isclose(en["offset"], -0.24) and en["units"] == "keV", "energy calibration")
            env.check([x["navigate"] for x in s["axes"]] == [True] * (len(s["axes"]) - 1) + [False], "kind of the axes")
            if not sum_frames:
                phys(env, s["axes"][0], 1.5, 0, "time")
            ip = s["original_metadata"]["ImportedDataParameter"]
            env.check((ip["First_frame"], ip["Last_frame"], ip["Number_of_frames"], ip["Number_of_channels"]) == (a, b, frames, ch), "parameters of the import")
    env.check(k == len(out), "nothing else")
    env.cover("map")


def h_eels(env, dims):
    from rsciio.emd import file_reader

    sparse_stub(env)
    f = open_velox(env, 11)
    px, py, ox, oy = 2e-9, 2.5e-9, -1e-8, 3e-8
    m0 = meta(px=px, py=py, ox=ox, oy=oy)
    if dims == 2:
        del m0["BinaryResult"]["Offset"]["y"]
    add_image(f, "im", env.array("img", (2, 3, 1), "uint16"), meta())
    text(f.require_group("Displays/ImageDisplay"), "d", {"id": "HAADF map"})
    g = f.require_group("Data/SpectrumImage/si")
    put_meta(g, m0)
    f.require_group("Data/SpectrumStream")
    arrs = {}
    for i, k in enumerate(("e1", "e2")):
        # stored as x, energy, y
        arrs[k] = env.array(k, (3, 2, 4)[: dims] if dims == 2 else (3, 4, 2), "float32")
        g = f.require_group("Data/EelsSpectrumImage/" + k)
        g.create_dataset("Data", data=arrs[k], chunks=True)
        put_meta(g, {"k": k})
        b = np.frombuffer(js({"Data": {"offset": 100.0 + i, "dispersion": 0.5 + i}}).ljust(200, b"\0"), "u1")
        g.create_dataset("AcquisitionMetadata", data=b[:, None])
    f.close()
    out = file_reader(env.path("v.emd"), select_type="spectrum_image")
    env.check(len(out) == 2, "every EELS range")
    for i, (s, k) in enumerate(zip(out, arrs)):
        a = arrs[k]
        d = s["data"]
        if dims == 3:
            env.check(tuple(d.shape) == (2, 3, 4), "shape: y, x, energy")
            env.check(env.all(*[env.same(d[y, x, e], a[x, e, y]) for y in range(2) for x in range(3) for e in range(4)]), "every value")
            spatial(env, s["axes"][:2], px, py, ox, oy)
        else:
            env.check(env.same_array(d, a), "every value")
            phys(env, s["axes"][0], px, ox, "x")
        axes_match(env, s)
        env.check([x["index_in_array"] for x in s["axes"]] == list(range(dims)), "order of the axes")
        e = s["axes"][-1]
        env.check((e["offset"], e["scale"], e["units"]) == (100.0 + i, 0.5 + i, "eV"), "energy calibration of each range")
        env.check(s["metadata"]["Signal"]["signal_type"] == "EELS" and s["original_metadata"] == {"k": k}, "its own metadata")
    env.cover("eels")


def h_time(env):
    """date and time in the local time zone"""
    from rsciio.emd._emd_velox import FeiEMDReader

    z, off, name = env.choose("zone", [("UTC0", 0, "UTC"), ("EST5", -5, "EST"), ("CET-1", 1, "CET"), ("XYZ3:30", -3.5, "XYZ")])
    old = os.environ.get("TZ")
    os.environ["TZ"] = z
    time.tzset()
    try:
        t = env.choose("time", [1512000000, 0, 1600003599.0, "1512000000"])
        r = FeiEMDReader()
        got = r._convert_datetime(t)
        import datetime as dtm

        want = dtm.datetime(1970, 1, 1) + dtm.timedelta(seconds=float(t), hours=off)
        env.check(got == want.isoformat(), "local date and time")
        env.check(r._get_local_time_zone() == name, "name of the time zone")
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()
    env.cover("time")


def harnesses(tier):
    hs = []
    deep = tier != "quick"

    def st(name, **k):
        a = dict(shape=(1, 2), channels=2, length=4, rebin=1, first=0, last=1, sum_frames=True, mode="dense")
        a.update(k)
        hs.append(H("stream " + name, h_stream, a, 240, SF, "every stream of %d values" % a["length"], ["stream"]))

    L = 5 if deep else 4
    for mode in ("dense", "sparse", "add"):
        for sf in (True, False):
            t = "%s %s" % (mode, "sum" if sf else "frames")
            b = dict(mode=mode, sum_frames=sf)
            st(t, **b, length=L)
            st(t + " 1x1", **b, shape=(1, 1), last=3, length=L)
            st(t + " two frames", **b, last=2, length=L)
            st(t + " from frame 1", **b, shape=(1, 1), first=1, last=3, length=L)
            st(t + " frame 1 only", **b, shape=(1, 1), first=1, last=2, length=L)
            st(t + " gates", **b, shape=(2, 2), channels=4, rebin=2, last=2, length=12, gates=(1, 2, 4, 6, 7, 8, 10))
            st(t + " gates from 1", **b, shape=(2, 1), channels=4, first=1, last=2, length=9, gates=(1, 3, 4, 6, 8))
            st(t + " tall", **b, shape=(3, 1), channels=3, last=1, length=6, gates=(1, 3))
            st(t + " wide", **b, shape=(1, 3), channels=3, last=1, length=6, gates=(1, 3))
            st(t + " more frames in the stream", **b, shape=(1, 1), channels=3, last=1, length=5, gates=(1, 3))
    for mode in ("dense", "sparse"):
        for sh, fr in (((1, 2, 2), 0), ((2, 1, 2), 0), ((1, 1, 2), 2), ((1, 2, 1), 3), ((2, 2, 1), 2)):
            hs.append(H("array %s %d %s" % (sh, fr, mode), h_rt, dict(shape=sh, frames=fr, mode=mode), 240, SF, "every array of small counts", ["stream"]))
    for sh in ((2, 3, 1), (3, 2, 2), (1, 2, 3)):
        for lz in (False, True):
            for dt in ("uint16", "int32", "float32"):
                hs.append(H("image %s %s%s" % (sh, dt, " lazy" * lz), h_image, dict(shape=sh, dtype=dt, lazy=lz), 120, VF, "every pixel", ["image"]))
            hs.append(H("TEM image %s%s" % (sh, " lazy" * lz), h_image, dict(shape=sh, dtype="int16", lazy=lz, tem=True), 120, VF, "every pixel", ["image"]))
    for lz in (False, True):
        for sf in (True, False):
            for sd in (True, False):
                b = dict(shape=(1, 2), frames=2, detectors=2, lazy=lz, sum_frames=sf, sum_det=sd)
                t = "map%s%s%s" % (" lazy" * lz, " sum" if sf else " frames", "" if sd else " per detector")
                for nm, k in (("", {}), (" rebin", dict(rebin=2)), (" from 1", dict(first=1)), (" to 1", dict(last=1)), (" unknown", dict(known=False)), (" unknown, final gate", dict(known=False, final_gate=True)), (" 2x1", dict(shape=(2, 1))), (" stack", dict(stack=True)), (" dtype", dict(dtype="uint32")), (" one detector", dict(detectors=1)), (" only", dict(select="spectrum_image"))):
                    hs.append(H(t + nm, h_si, dict(b, **k), 120, VF, "every count, pixel and channel", ["map"]))
    for sel in ("images", "single_spectrum"):
        hs.append(H("map select " + sel, h_si, dict(shape=(1, 2), frames=2, detectors=2, lazy=False, sum_frames=True, sum_det=True, select=sel), 120, VF, "every count", ["map"]))
    for d in (2, 3):
        hs.append(H("EELS %d" % d, h_eels, dict(dims=d), 60, VF, "every value", ["eels"]))
    hs.append(H("time", h_time, {}, 60, VF, "the zones and times named", ["time"]))
    return hs
