"""Renishaw Raman spectroscopy (.wdf)."""
import contextlib
import struct

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "sizes, types, units, texts, identifiers and times of the headers concrete; spectra, signal axis, origins, map calibration and stored numbers symbolic (finite)",
    "numpy's fit of a uniform axis and pillow's decoding of the white light image run on concrete values; the area marked on the image is symbolic",
]
F = ["rsciio.renishaw._api." + n for n in ("file_reader", "WDFReader.locate_all_blocks", "WDFReader._parse_WDF1", "WDFReader._parse_XLST", "WDFReader._parse_YLST", "WDFReader._parse_ORGN", "WDFReader._parse_WMAP", "WDFReader._parse_MAP",
                                           "WDFReader._pset_read_metadata", "WDFReader._pset_match_keys_and_values", "WDFReader._match_WXDM_values", "WDFReader._set_nav_via_WMAP", "WDFReader._set_nav_via_ORGN", "WDFReader._reshape_data", "WDFReader.map_metadata")]
UNITS = dict(enumerate(["", "1/cm", "nm", "nm", "eV", "µm", "counts", "electrons", "mm", "m", "K", "Pa", "s", "ms", "h", "d", "px", "", "", "°", "rad", "°C", "°F", "K/min", "ns", "µs"]))
NAMES = {1: "Raman Shift", 2: "Wavenumber", 3: "Wavelength", 5: "Wavelength"}
ORIGIN = {3: "X", 4: "Y", 5: "Z", 11: "Time", 14: "FocusTrack_Z", 16: "SpectrumDataChecksum", 17: "BitFlags", 9: "Temperature"}
SINGLE = {"c": "<b", "?": "<B", "s": "<h", "i": "<i", "w": "<q", "r": "<f", "q": "<d"}
T0 = 132223104000000000  # 2020-01-01 in units of 100 ns since 1601


def header(env, pps, nspec, capacity, ny, norgn, kind, unit=6, start=T0 + 36000000000, nx=None):
    c = [0] * 512
    put(c, 0, b"WDF1" + struct.pack("<IQ", 1, 512))
    v = {"flags": env.int("flags", 0, 2**63 - 1), "ntracks": env.int("ntracks", 0, 2**32 - 1), "file_status_error_code": env.int("status", 0, 2**32 - 1), "accumulations_per_spectrum": env.int("accum", 0, 2**32 - 1), "laser_wavenumber": env.float("laser", "f")}
    put(c, 16, env.pack("<Q", v["flags"]))
    put(c, 24, struct.pack("<IIII", 7, 8, 9, 10))
    put(c, 52, env.pack("<II", v["ntracks"], v["file_status_error_code"]))
    put(c, 60, struct.pack("<IQQ", pps, capacity, nspec))
    put(c, 80, env.pack("<I", v["accumulations_per_spectrum"]))
    put(c, 84, struct.pack("<III", ny, pps if nx is None else nx, norgn))
    put(c, 96, b"WiRE")
    put(c, 120, struct.pack("<HHHHIIQQI", 5, 3, 0, 10411, 3, kind, start, start + 600000000, unit))
    put(c, 156, env.pack("<f", v["laser_wavenumber"]))
    put(c, 208, b"Raman User")
    put(c, 240, "sample µ".encode())
    v.update(uuid="7-8-9-10", app_name="WiRE", app_version="5-3-0-10411", scan_type="StepRepeat", username="Raman User", title="sample µ", time_start="2020-01-01#01:00:00", time_end="2020-01-01#01:01:00",
             points_per_spectrum=pps, num_spectra=nspec, capacity=capacity, num_ORGN=norgn, YLST_length=ny, measurement_type={0: "Unspecified", 1: "Single", 2: "Series", 3: "Mapping"}[kind])
    return c, v


def block(name, body, uid=0):
    return list(name + struct.pack("<IQ", uid, len(body) + 16)) + list(body)


def floats(env, name, n, fmt="f"):
    c = env.bytes(name, n * struct.calcsize(fmt))
    return c, env.from_cells(c, "<f%d" % struct.calcsize(fmt))


def origins(env, kinds, n, units=5, flagged=True, values=None):
    body, out = list(struct.pack("<I", len(kinds))), {}
    for i, k in enumerate(kinds):
        body += list(struct.pack("<II16s", k | ((i % 2) << 31 if flagged else 0), units, b"note%d" % i))
        if k == 11:
            c = env.bytes("o%d" % k, 8 * n)
            a = env.from_cells(c, "<u8")
            for x in a:
                env.assume(x < 2**50)
            a = a.astype("i8")
            a = env.nd(a - a[0])
        elif values is not None and k not in (16, 17):
            c = list(np.array(values, "<f8").tobytes())
            a = env.from_cells(c, "<f8")
        else:
            c, a = floats(env, "o%d" % k, n, "d")
        body += list(c)
        out[ORIGIN[k]] = a
    return body, out


def wmap(env, flag, sizes, focus=0):
    v = {k: [env.float("%s%d" % (k, i), "f") for i in range(3)] for k in ("offset", "scale")}
    if flag == 128:
        v["scale"] = [np.float32(x) for x in env.choose("step", [(3, 4, 0), (-0.75, 1, 0), (0, 2.5, 0), (6, -8, 0)])]
    body = list(struct.pack("<II", flag, 0))
    for k in ("offset", "scale"):
        for x in v[k]:
            body += list(env.pack("<f", x))
    return body + list(struct.pack("<IIII", *sizes, focus)), v


def lists(env, pps, ny, unit, down=None):
    if down is not None:
        t = np.array([500 + 10 * i * i for i in range(pps)], "<f4")
        t = t[::-1] if down else t
        xc = list(t.tobytes())
        x = env.from_cells(xc, "<f4")
    else:
        xc, x = floats(env, "x", pps)
    if pps > 1 and down is None:
        up = env.all(*[p < q for p, q in zip(x, x[1:])])
        dn = env.all(*[p > q for p, q in zip(x, x[1:])])
        env.assume(env.any(up, dn))
    yc, y = floats(env, "y", ny)
    return list(struct.pack("<II", 1, unit)) + list(xc), x, list(struct.pack("<II", 0, 0)) + list(yc), y


def read(env, cells, **kw):
    from rsciio.renishaw import file_reader

    return file_reader(env.file("m.wdf", cells), **kw)


def check_header(env, s, v):
    h = s["original_metadata"]["WDF1_1"]
    env.check(env.all(*[env.same(h[k], x) if not isinstance(x, str) else h[k] == x for k, x in v.items()]), "every value of the header")
    g = s["metadata"]["General"]
    env.check((g["title"], g["original_filename"], g["date"], g["time"]) == ("sample µ", "m.wdf", "2020-01-01", "01:00:00"), "title and start time")
    env.check(s["metadata"]["Signal"]["quantity"] == "Intensity (Counts)", "quantity")


def flip(a, x):
    """spectra in the order of ascending signal values"""
    if len(x) > 1 and bool(x[0] > x[1]):
        return a[..., ::-1], x[::-1]
    return a, x


def check_spectrum(env, s, data, x, unit=1):
    data, x = flip(data, x)
    d = s["data"]
    env.check(env.same_array(d, data), "every intensity at its position and channel, channels ascend")
    axes_match(env, s)
    a = s["axes"][-1]
    env.check(env.same_array(a["axis"], x, dtype=False) and (a["name"], a["units"], a["navigate"], a["index_in_array"]) == (NAMES.get(unit, "Unknown"), UNITS[unit], False, d.ndim - 1), "signal axis")


def assemble(blocks, order):
    head, rest = blocks[0], blocks[1:]
    return head + [c for i in order for c in rest[i]]


def h_single(env, pps, unit, kind=1, navg=1, ny=1, extra=()):
    c, v = header(env, pps, navg, navg, ny, 0, kind)
    xb, x, yb, y = lists(env, pps, ny, unit, down=None if navg == 1 else False)
    dc, d = floats(env, "d", pps * navg)
    if navg == 2:
        d = env.choose("d", [(1, 2, 4, 7), (0.5, -3, 2.5, 100)])
        dc = list(np.array(d, "<f4").tobytes())
        d = np.array(d, "<f4")
    bl = [c, block(b"DATA", dc), block(b"YLST", yb), block(b"XLST", xb)] + [block(n, b) for n, b in extra]
    order = env.choose("order", [(0, 1, 2), (2, 0, 1), (1, 2, 0)]) + tuple(range(3, len(bl) - 1))
    r = read(env, assemble(bl, order))
    env.check(len(r) == 1, "one signal")
    s = r[0]
    if navg == 1:
        check_spectrum(env, s, d, x, unit)
    else:
        d = d.reshape(navg, pps)
        env.check(tuple(s["data"].shape) == (pps,) and env.all(*[float(s["data"][i]) == (d[0, i] + d[1, i]) / 2 for i in range(pps)]), "mean of the spectra")
    o = s["original_metadata"]["YLST_0"]
    env.check(env.all(*[env.same(p, q) for p, q in zip(np.atleast_1d(o["data"]) if not env.symbolic else list(o["data"]) if ny > 1 or hasattr(o["data"], "__len__") else [o["data"]], y)]), "values of the second list")
    check_header(env, s, v)
    env.cover("read")


def h_map(env, nx, ny, flag, capacity=None, pps=3, others=(3, 4), units=5, n=None):
    """maps: spectra in rows"""
    down = env.choose("down", [False, True])
    cap = nx * ny if flag != 128 else max(nx, ny)
    n = cap if n is None else n
    c, v = header(env, pps, n, cap, 1, len(others), 3)
    xb, x, yb, y = lists(env, pps, 1, 1, down=down)
    ob, o = origins(env, others, cap, units)
    wb, w = wmap(env, flag, (nx, ny, 1) if flag != 128 else (cap, 1, 1))
    dc, d = floats(env, "d", pps * cap)
    bl = [c, block(b"DATA", dc), block(b"YLST", yb), block(b"XLST", xb), block(b"ORGN", ob), block(b"WMAP", wb), block(b"????", [1, 2, 3])]
    s = read(env, assemble(bl, env.choose("order", [(0, 1, 2, 3, 4, 5), (5, 4, 3, 2, 1, 0)])))[0]
    if flag == 128:
        shape = (cap, pps)
    else:
        shape = (n // nx, nx, pps)
    want = d[: shape[0] * (shape[1] if len(shape) == 3 else 1) * pps].reshape(shape)
    check_spectrum(env, s, want, x)
    ax = s["axes"]
    if flag == 128:
        a = ax[0]
        env.check((a["name"], a["units"], a["navigate"], a["offset"]) == ("Abs. Distance", UNITS[units], True, 0), "line scan axis")
        r = a["scale"]
        p, q = w["scale"][0], w["scale"][1]
        env.check(abs(float(r) - float(np.hypot(p, q))) <= 1e-5 * abs(float(r)), "length of the step")
    else:
        for a, name, i in ((ax[0], "Y", 1), (ax[1], "X", 0)):
            env.check(env.all(env.same(a["offset"], w["offset"][i]), env.same(a["scale"], w["scale"][i])) and (a["name"], a["units"], a["navigate"]) == (name, UNITS[units], True), "axis " + name)
    m = s["original_metadata"]["WMAP_0"]
    env.check(env.all(*[env.same(m[k + "_xyz"][i], w[k][i]) for k in w for i in range(3)]), "map calibration")
    om = s["original_metadata"]["ORGN_0"]
    for k in (16, 17, 11):
        if k in others:
            e = om[ORIGIN[k]]
            env.check(env.same_array(e["data"], o[ORIGIN[k]][:n], dtype=False) and e["annotation"] == "note%d" % others.index(k), "stored origin " + ORIGIN[k])
    check_header(env, s, v)
    env.cover("read")


def h_series(env, which, n, others=(), capacity=None, pps=2, units=5):
    cap = capacity or n
    kinds = others + (which,)
    c, v = header(env, pps, n, cap, 1, len(kinds), 2)
    xb, x, yb, y = lists(env, pps, 1, 3, down=False)
    steps = {1: [(7,)], 2: [(1.5, 4), (4, 1.5), (-1, -1), (0, -2)], 3: [(0.5, 1.5, 2.25), (3, 2, 0), (1, 4, 1), (5, 5, 5)]}[n]
    ob, o = origins(env, kinds, cap, units, values=None if which == 11 else env.choose("steps", steps) + (0,) * (cap - n))
    dc, d = floats(env, "d", pps * cap)
    s = read(env, assemble([c, block(b"DATA", dc), block(b"YLST", yb), block(b"XLST", xb), block(b"ORGN", ob)], (0, 1, 2, 3)))[0]
    check_spectrum(env, s, d[: n * pps].reshape(n, pps), x, 3)
    a = s["axes"][0]
    z = o[ORIGIN[which]][:n]
    mean = 0 if n < 2 else (z[1] - z[0]) / 1 if n == 2 else None
    env.check((a["name"], a["navigate"], a["size"]) == (ORIGIN[which], True, n), "series axis")
    if which == 14 or n < 2:
        env.check("units" not in a and "scale" not in a, "no calibration")
    elif n == 2:
        if bool(mean == 0):
            env.check("units" not in a and "scale" not in a, "no calibration of an invariant axis")
        else:
            env.check(env.all(env.same(a["scale"], mean), env.same(a["offset"], z[0])) and a["units"] == UNITS[units], "calibration of the series")
    else:
        t = [z[i + 1] - z[i] for i in range(n - 1)]
        tot = t[0]
        for q in t[1:]:
            tot = tot + q
        if "scale" in a:
            env.check(env.all(env.same(a["scale"], tot / (n - 1)), env.same(a["offset"], z[0])) and a["units"] == UNITS[units], "calibration of the series")
        else:
            env.check(tot / (n - 1) == 0, "only an invariant axis is not calibrated")
    for k in others:
        if k in (16, 17, 11):
            e = s["original_metadata"]["ORGN_0"][ORIGIN[k]]
            env.check(env.same_array(e["data"], o[ORIGIN[k]][:n], dtype=False), "stored origin")
    check_header(env, s, v)
    env.cover("read")


class Set:
    """parameter set: named values of all types"""

    def __init__(self, env, tag):
        self.env, self.tag, self.keys, self.vals, self.want, self.id = env, tag, [], [], {}, 0

    def entry(self, name, typ, flag, payload, value, matched=True):
        self.id += 1
        self.vals += [ord(typ), flag] + list(struct.pack("<H", self.id)) + list(payload)
        if matched:
            self.keys += [ord("k"), 0] + list(struct.pack("<HI", self.id, len(name))) + list(name.encode())
            self.want[name] = value

    def number(self, name, typ, value=None, matched=True):
        f = SINGLE[typ]
        n = 8 * struct.calcsize(f)
        if value is None:
            q = "%s.%s" % (self.tag, name)
            value = self.env.float(q, f[1]) if f[1] in "fd" else self.env.int(q, *((0, 2**n - 1) if f[1].isupper() else (-2**(n - 1), 2**(n - 1) - 1)))
        self.entry(name, typ, 0, self.env.pack(f, value), value, matched)
        return value

    def array(self, name, typ, n):
        f = SINGLE[typ]
        c = self.env.bytes("%s.%s" % (self.tag, name), n * struct.calcsize(f))
        self.entry(name, typ, 128, list(struct.pack("<I", n)) + list(c), self.env.from_cells(c, "<%s%d" % ("f" if f[1] in "fd" else "u" if f[1].isupper() else "i", struct.calcsize(f))))

    def text(self, name, s):
        self.entry(name, "u", 0, struct.pack("<I", len(s.encode())) + s.encode(), s)

    def body(self, keys_first=True):
        return self.keys + self.vals if keys_first else self.vals + self.keys

    def nested(self, name, other, keys_first=True):
        b = other.body(keys_first)
        self.entry(name, "p", 0, list(struct.pack("<I", len(b))) + b, other.want)


def same_set(env, got, want):
    ok = [sorted(got) == sorted(want)]
    for k, w in want.items():
        if k not in got:
            continue
        g = got[k]
        if isinstance(w, dict):
            ok.append(same_set(env, g, w))
        elif isinstance(w, (str, type(None))):
            ok.append(g == w)
        elif hasattr(w, "shape") and w.shape:
            ok.append(env.same_array(g, w, dtype=False) if w.shape[0] > 1 else env.same(g, w[0]))
        else:
            ok.append(env.same(g, w))
    return env.all(*ok)


def pset(s, first=True, tail=b""):
    b = s.body(first)
    return list(struct.pack("<II", 0x54455350, len(b))) + b + list(tail)


def base(env, extra):
    c, v = header(env, 2, 1, 1, 1, 0, 1)
    xb, x, yb, y = lists(env, 2, 1, 1, down=False)
    dc, d = floats(env, "d", 2)
    s = read(env, assemble([c, block(b"DATA", dc), block(b"YLST", yb), block(b"XLST", xb)] + extra, tuple(range(3 + len(extra)))))[0]
    check_spectrum(env, s, d, x)
    return s, v


def h_sets(env, first):
    """parameter sets of all blocks: every value under its own name"""
    a = Set(env, "a")
    for t in SINGLE:
        a.number("value " + t, t)
    a.text("text", "µ text")
    a.entry("time", "t", 0, struct.pack("<Q", T0), "2020-01-01#00:00:00")
    a.entry("binary", "b", 0, struct.pack("<I", 3) + b"\x01\xab\xff", "binary: 01ABFF")
    a.entry("script", "u", 64, struct.pack("<I", 5) + b"zzzzz", None)
    b = Set(env, "b")
    b.number("inner", "i")
    e = Set(env, "e")
    e.number("deep", "q")
    b.nested("deeper", e, not first)
    b.text("last", "end")
    a.nested("nested", b, first)
    a.array("list f", "r", 3)
    a.array("list i", "i", 2)
    a.array("one", "s", 1)
    a.number("after", "s")
    w = Set(env, "w")
    w.number("zero", "r")
    z = Set(env, "z")
    z.text("n", "v")
    z.number("lost", "i", matched=False)
    s, v = base(env, [block(b"WXIS", pset(a, first)), block(b"WARP", pset(w, first)), block(b"WARP", pset(z, first), 1), block(b"WXDA", pset(w, first, b"\n" + b"\0" * 20)), block(b"ZLDC", [1] * 12), block(b"TEXT", "a note µ".encode())])
    o = s["original_metadata"]
    env.check(same_set(env, o["WXIS_0"], a.want), "every value under its own name")
    env.check(same_set(env, o["WARP_0"], w.want) and same_set(env, o["WARP_1"], z.want) and same_set(env, o["WXDA_0"], w.want), "further sets")
    env.check("ZLDC_0" not in o and o["TEXT_0"] == "a note µ" and "UNMATCHED" not in o, "text, and no set where there is none")
    check_header(env, s, v)
    env.cover("read")


def h_calibration(env, lens):
    """laser, grating, detector and exposure from the parameter sets"""
    x = Set(env, "x")
    las, dat = Set(env, "l"), Set(env, "l0")
    k = dat.number("Wavenumber", "q")
    env.assume(env.any(k > 1e-3, k < -1e-3))
    las.nested("Data", dat)
    x.nested("Lasers", las)
    gr, g0 = Set(env, "g"), Set(env, "g0")
    gd = g0.number("Groove Density (lines/mm)", "q")
    gr.nested("Grating", g0)
    x.nested("Gratings", gr)
    ccd = Set(env, "c")
    ccd.text("CCD", "Centrus 0")
    t = ccd.number("Target temperature", "r")
    x.nested("CCD", ccd)
    m = Set(env, "m")
    m.number("own", "i")
    # names are given once, values appear in nested sets
    ids = {"Accumulations": 901, "Exposure Time": 902, "Use Cosmic Ray Remove": 903}
    for n, i in ids.items():
        m.keys += [ord("k"), 0] + list(struct.pack("<HI", i, len(n))) + list(n.encode())
    fr, ex = env.int("frames", 1, 10000), env.float("exposure", "f")

    def sub(i, typ, payload):
        return [ord(typ), 0] + list(struct.pack("<H", i)) + list(payload)

    values = {"frames": sub(901, "i", env.pack("<i", fr)), "exposure": sub(902, "r", env.pack("<f", ex)), "crr": sub(903, "?", [1])}
    nested = sub(77, "p", struct.pack("<I", sum(map(len, values.values()))))
    for q in values.values():
        nested += q
    other = sub(78, "p", struct.pack("<I", lens)) + sub(900, "b", struct.pack("<I", lens - 8) + b"\0" * (lens - 8))
    top = sub(79, "p", struct.pack("<I", len(nested) + len(other))) + other + nested
    m.vals += top
    s, v = base(env, [block(b"WXCS", pset(x)), block(b"WXDM", pset(m))])
    i = s["metadata"]["Acquisition_instrument"]
    env.check(env.same(i["Laser"]["wavelength"], 1e7 / k), "laser wavelength")
    env.check(env.same(i["Spectrometer"]["Grating"]["groove_density"], gd), "groove density")
    d = i["Detector"]
    env.check(env.same(d["temperature"], t) and d["model"] == "Centrus 0", "detector")
    env.check(env.same(d["frames"], fr) and d["processing"]["cosmic_ray_removal"] == 1, "frames")
    env.check(env.same(d["integration_time"], ex * fr / 1000), "integration time in seconds")
    env.check(same_set(env, {q: s["original_metadata"]["WXDM_0"][q] for q in ("own",)}, {"own": m.want["own"]}), "own value")
    env.cover("read")


def h_mapblock(env, n):
    a, b = Set(env, "a"), Set(env, "b")
    a.number("min", "r")
    b.text("name", "second")
    out = []
    for i, q in enumerate((a, b)):
        c, z = floats(env, "m%d" % i, n)
        out.append((q, z, block(b"MAP ", pset(q) + list(struct.pack("<Q", n)) + list(c), i)))
    s, v = base(env, [o[2] for o in out])
    for i, (q, z, _) in enumerate(out):
        m = dict(s["original_metadata"]["MAP_%d" % i])
        dat, k = m.pop("data"), m.pop("npoints")
        env.check(k == n and (env.same_array(dat, z) if n > 1 else env.same(dat if not getattr(dat, "shape", ()) else dat[0], z[0])), "points of the map")
        env.check(same_set(env, m, q.want), "values of the map")
    env.cover("read")


@contextlib.contextmanager
def fit(env):
    import rsciio.renishaw._api as m

    old = m.polyfit
    m.polyfit = lambda x, y, deg: [float(c) for c in old(np.array([float(i) for i in x]), np.array([float(i) for i in y]), deg=deg)]
    try:
        yield
    finally:
        m.polyfit = old


def h_uniform(env, down):
    pps = 4
    c, v = header(env, pps, 1, 1, 1, 0, 1)
    t = np.array([200 + 1.5 * i for i in range(pps)], "f4")
    xb = list(struct.pack("<II", 1, 1)) + list((t[::-1] if down else t).tobytes())
    dc, d = floats(env, "d", pps)
    with fit(env):
        s = read(env, assemble([c, block(b"DATA", dc), block(b"YLST", [0] * 12), block(b"XLST", xb)], (0, 1, 2)), use_uniform_signal_axis=True)[0]
    env.check(env.same_array(s["data"], d[::-1] if down else d), "intensities")
    a = s["axes"][0]
    env.check(abs(a["offset"] - 200) < 1e-3 and abs(a["scale"] - 1.5) < 1e-3 and (a["size"], a["units"]) == (pps, "1/cm"), "scale and offset")
    env.cover("read")


def photo(w, h, exif):
    import io

    from PIL import Image

    im = Image.new("RGB", (w, h))
    im.putdata([(9 * i % 256, 40, 255 - 7 * i % 256) for i in range(w * h)])
    ex = Image.Exif()
    for k, v in exif.items():
        ex[k] = v
    b = io.BytesIO()
    im.save(b, "JPEG", exif=ex)
    return b.getvalue(), np.array(Image.open(io.BytesIO(b.getvalue())))


def h_white(env, w, h, exif, mapped=True, last=False):
    """the white light image, its calibration and the area of the map"""
    nx, ny = 2, 3
    jpg, px = photo(w, h, exif)
    c, v = header(env, 2, nx * ny if mapped else 1, nx * ny if mapped else 1, 1, 2 if mapped else 0, 3 if mapped else 1)
    xb, x, yb, y = lists(env, 2, 1, 1, down=False)
    dc, d = floats(env, "d", 2 * (nx * ny if mapped else 1))
    bl = [block(b"DATA", dc), block(b"YLST", yb), block(b"XLST", xb)]
    if mapped:
        ob, o = origins(env, (3, 4), nx * ny)
        wb, m = wmap(env, 2, (nx, ny, 1))
        bl += [block(b"ORGN", ob), block(b"WMAP", wb)]
    bl.insert(len(bl) if last else 0, block(b"WHTL", jpg))
    r = read(env, assemble([c] + bl, tuple(range(len(bl)))))
    env.check(len(r) == 2, "the spectra and the image")
    check_spectrum(env, r[0], d.reshape((ny, nx, 2) if mapped else (2,)), x)
    s = r[1]
    got = s["data"]
    env.check(tuple(got.shape) == (h, w) and all(np.array_equal(np.asarray([[int(i) for i in q] for q in got[n]]), px[..., i]) for i, n in enumerate("RGB")), "pixels of the image")
    fov = exif.get(0xA20E, w), exif.get(0xA20F, h)
    off = exif.get(0xFEA0, (0, 0))
    unit = {None: None, 2: "inches", 3: "cm", 4: "mm", 5: "µm"}[exif.get(0xA210)]
    a, b = s["axes"]
    near = lambda p, q: abs(float(p) - float(q)) <= 1e-6 * max(1, abs(float(q)))
    env.check((a["name"], a["size"], a["units"], b["name"], b["size"], b["units"]) == ("y", h, unit, "x", w, unit) and near(a["scale"], fov[1] / h) and near(b["scale"], fov[0] / w) and near(a["offset"], off[1]) and near(b["offset"], off[0]), "calibration of the image")
    env.check(s["metadata"]["General"]["original_filename"] == "m.wdf", "name of the file")
    if not mapped:
        env.check("Markers" not in s["metadata"], "no area without a map")
    else:
        k = s["metadata"]["Markers"]["Map"]["kwargs"]
        ww, hh = m["scale"][0] * nx, m["scale"][1] * ny
        env.check(env.all(env.same(k["widths"], ww), env.same(k["heights"], hh)), "size of the area")
        z = k["offsets"]
        env.check(env.all(env.same(z[0], m["offset"][0] + ww / 2), env.same(z[1], m["offset"][1] + hh / 2)), "centre of the area")
    env.cover("read")


def h_refused(env, what):
    c, v = header(env, 2, 1, 1, 1, 0, 1, nx=env.int("nx", 0, 2**31 - 1) if False else 3 if what == "sizes" else None)
    xb, x, yb, y = lists(env, 2, 1, 1, down=False)
    bl = {"DATA": block(b"DATA", env.bytes("d", 8)), "YLST": block(b"YLST", yb), "XLST": block(b"XLST", xb)}
    bl.pop(what, None)
    cells = c + [z for q in bl.values() for z in q]
    r, e = env.attempt(read, env, cells, **({"lazy": True} if what == "lazy" else {}))
    env.check(isinstance(e, NotImplementedError if what == "lazy" else RuntimeError), "refused")
    env.cover("read")


def harnesses(tier):
    hs = []
    add = lambda name, f, p: hs.append(H(name, f, p, 90, F, "every intensity, axis value, origin, calibration and stored number", ["read"]))
    for unit in (0, 1, 2, 3, 4, 5):
        add(f"single {unit}", h_single, dict(pps=3, unit=unit, ny=2))
    for pps in (1, 2, 4):
        add(f"single pps {pps}", h_single, dict(pps=pps, unit=1))
    add("single average", h_single, dict(pps=2, unit=1, navg=2))
    add("unspecified", h_single, dict(pps=3, unit=1, kind=0))
    add("unknown blocks", h_single, dict(pps=3, unit=1, extra=((b"BKXL", b"abc"), (b"ZZZZ", b""))))
    for nx, ny in ((2, 3), (3, 2), (1, 3), (3, 1), (1, 1)):
        for flag in (0, 2):
            add(f"map {nx}x{ny} {flag}", h_map, dict(nx=nx, ny=ny, flag=flag))
    for o in ((3, 4, 11), (11, 3, 4, 16), (16, 17, 3, 4), (3, 4, 9)):
        add(f"map origins {o}", h_map, dict(nx=2, ny=2, flag=2, others=o, units=8))
    for n in (2, 3, 4, 5):
        add(f"map unfinished {n}", h_map, dict(nx=2, ny=3, flag=2, n=n, others=(3, 4, 16, 11, 17)))
    for n in (2, 3):
        add(f"line {n}", h_map, dict(nx=n, ny=1, flag=128))
    for which in (3, 4, 5, 11, 14):
        for n in (1, 2, 3):
            add(f"series {which} {n}", h_series, dict(which=which, n=n))
    add("series time and z", h_series, dict(which=5, n=2, others=(11, 16)))
    add("series unfinished", h_series, dict(which=5, n=2, others=(16,), capacity=3))
    for first in (True, False):
        add(f"sets {first}", h_sets, dict(first=first))
    for lens in (12, 200, 300):
        add(f"calibration {lens}", h_calibration, dict(lens=lens))
    for n in (1, 3):
        add(f"map block {n}", h_mapblock, dict(n=n))
    for d in (True, False):
        add(f"uniform {d}", h_uniform, dict(down=d))
    for k, ex in enumerate(({}, {0xA20E: 30.0, 0xA20F: 12.0, 0xA210: 5, 0xFEA0: (-8.5, 120.0)}, {0xA20E: 30.0, 0xA210: 4})):
        add(f"white light {k}", h_white, dict(w=5, h=4, exif=ex, mapped=k != 2, last=k == 1))
    add("white light wide", h_white, dict(w=3, h=2, exif={0xA20E: 3.0, 0xA20F: 2.0, 0xA210: 2}))
    for w in ("sizes", "DATA", "XLST", "lazy"):
        add(f"refused {w}", h_refused, dict(what=w))
    return hs
