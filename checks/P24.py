"""Phenom element identification projects (.elid)."""
import contextlib
import io
import struct

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "bz2 and tifffile are trusted: the decompressor is a stand-in that hands out the stream in pieces, an image is the array and the tag its file holds",
    "sizes, texts, element and oxide numbers concrete; counts, image values and all floating point fields symbolic (finite)",
]
F = ["rsciio.phenom._api.ElidReader." + n for n in ("_read", "_read_tiff", "_read_varuint32", "_read_spectrum", "_read_eds_metadata", "_read_CommonAnalysis", "_read_MsaAnalysis", "_read_SpotAnalysis", "_read_LineScanAnalysis",
                                                    "_read_MapAnalysis", "_read_DifferenceAnalysis", "_read_RegionAnalysis", "_read_ConstructiveAnalysis", "_read_Project", "_make_map_spectrum_dict", "_make_image_dict", "_make_mapping")]
ELEMENTS = ("H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os "
            "Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og").split()


class Stream:
    """the uncompressed stream, with the images it holds"""

    def __init__(self, env, version):
        self.env, self.cells, self.n, self.images, self.version = env, [], 0, {}, version
        self.raw(b"EID2")
        self.i32(version)

    def raw(self, b):
        self.cells += list(b)

    def u8(self, *v):
        self.cells += list(v)

    def u32(self, *v):
        for x in v:
            self.raw(struct.pack("<I", x))

    def i32(self, *v):
        for x in v:
            self.cells += list(self.env.pack("<i", x))

    def text(self, s):
        self.u32(len(s.encode()))
        self.raw(s.encode())

    def f64(self, name=None, value=None):
        self.n += 1
        if value is None:
            value = self.env.float("%s%d" % (name or "f", self.n))
        self.cells += list(self.env.pack("<d", value))
        return value

    def count(self, nbytes):
        """a count written in ``nbytes`` groups of 7 bits"""
        self.n += 1
        g = [self.env.int("c%d.%d" % (self.n, i), 0, 15 if i == 4 else 127) for i in range(nbytes)]
        v = 0
        for i, x in enumerate(g):
            self.cells.append(x + 128 if i < nbytes - 1 else x)
            v = v + x * 128**i
        return v

    def bins(self, n):
        return [self.count((1, 2, 1, 5, 3)[(i + self.n) % 5]) for i in range(n)]

    def image(self, kind, shape, dtype="u1", **tags):
        """image file with (``"fei"``) or without (``"plain"``) the microscope's tag; ``"none"``: no file"""
        if kind == "none":
            self.u32(0)
            return None
        env = self.env
        a = env.array("im%d" % len(self.images), shape, dtype)
        xml = fei(**tags) if kind == "fei" else None
        if env.symbolic:
            b = b"IMAGE%03d" % len(self.images)
            self.images[b] = (a, xml)
        else:
            import tifffile

            f = io.BytesIO()
            k = {} if xml is None else {"extratags": [(34683, 2, 0, xml, True)]}
            tifffile.imwrite(f, a, metadata=None, photometric="rgb" if len(shape) > 2 else "minisblack", **k)
            b = f.getvalue()
        self.u32(len(b))
        self.raw(b)
        return a


def fei(width="975.5", height="970.25", unit="nm", sscale="1", spot="4.3", time="2019-08-07T09:37:31", x="-0.0025", y="-0.0007", hv="-15", wd="8.125"):
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<FeiImage><pixelWidth unit="%s">%s</pixelWidth><pixelHeight unit="%s">%s</pixelHeight><time>%s</time><currentUser/><samplePosition><x>%s</x><y>%s</y></samplePosition>'
            '<acquisition><scan><dwellTime unit="ns">200</dwellTime><spotSize>%s</spotSize><detectors><QBSD A="+"><gain>5</gain></QBSD></detectors><highVoltage unit="kV">%s</highVoltage><scanScale>%s</scanScale></scan></acquisition>'
            '<workingDistance unit="mm">%s</workingDistance><instrument><uniqueID>MVE-7</uniqueID></instrument></FeiImage>') % (unit, width, unit, height, time, x, y, spot, hv, sscale, wd)


@contextlib.contextmanager
def project(env, st):
    """path of the project file"""
    import rsciio.phenom._api as m

    if not env.symbolic:
        import bz2

        b = bz2.compress(bytes(bytearray(st.cells)))
        yield env.file("p.elid", list(b))
        return

    class Decompressor:
        def __init__(self):
            self.buf, self.total, self.skip = [], len(st.cells), 10
            self.eof = False

        @property
        def needs_input(self):
            return not self.buf and not self.eof

        def decompress(self, data, max_length=-1):
            if self.eof:
                raise EOFError("End of stream already reached")
            data = list(data)
            k = min(self.skip, len(data))
            self.skip -= k
            self.buf += data[k:]
            n = len(self.buf) if max_length < 0 else min(max_length, len(self.buf))
            out, self.buf = self.buf[:n], self.buf[n:]
            self.total -= n
            self.eof = self.total == 0
            return env.tobytes(out)

    class Tiff:
        def __init__(self, f):
            self.a, xml = st.images[bytes(f.read())]
            tags = {} if xml is None else {"FEI_TITAN": type("Tag", (), {"value": xml})}
            self.pages = [type("Page", (), {"tags": tags})]

        def asarray(self):
            return self.a

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    old = m.bz2, m.tifffile
    m.bz2, m.tifffile = type("bz2", (), {"BZ2Decompressor": Decompressor}), type("tifffile", (), {"TiffFile": Tiff})
    try:
        yield env.file("p.elid", list(b"BZh91AY&SY") + st.cells)
    finally:
        m.bz2, m.tifffile = old


def eds(st, want=None, am=True, spot=4.3, wd=8.125):
    """fields of the detector"""
    import math

    o = {"high_tension": st.f64("ht"), "detector_elevation": st.f64("el"), "detector_azimuth": st.f64("az"), "live_time": st.f64("live"), "real_time": st.f64("real"), "slow_peaking_time": st.f64("slow"), "fast_peaking_time": st.f64("fast"),
         "detector_resolution": st.f64("res"), "instrument_id": "MVE-9"}
    st.text("MVE-9")
    if st.version == 0:
        o["detector_elevation"] = ("radians", o["detector_elevation"])
        if am:
            o.update(working_distance=wd * 1e-3, slow_peaking_time=11.2e-6 if spot < 4.5 else 2e-6, fast_peaking_time=100e-9, detector_surface_area=25e-6)
    else:
        for k in ("optical_working_distance", "working_distance", "detector_surface_area", "detector_distance", "sample_tilt_angle"):
            o[k] = st.f64(k[:6])
    if st.version >= 3:
        o["ccorrection"] = st.f64("cc")
        st.u8(3, 1)
        o.update(detector_type="FastSDD_WLS", spectrum_correction="linearized")
    else:
        o.update(ccorrection=0, detector_type="FastSDD_C2", spectrum_correction="unknown")
    return o


def common(st, nbins, order, am=True, elements=(26, 8), spot=4.3):
    """part common to all analyses: (EDS fields, counts)"""
    st.u32(0)
    off, disp = st.f64("off"), st.f64("disp")
    st.u32(nbins)
    c = st.bins(nbins)
    o = eds(st, am=am, spot=spot)
    o.update(offset=off, dispersion=disp)
    st.u32(len(elements))
    st.u8(*elements)
    st.u32(1)
    st.u8(79)
    b = [st.env.int("bin%d.%d" % (st.n, i), -2**31, 2**31 - 1) for i in range(2)]
    st.u32(2)
    st.i32(*b)
    st.u32(3)
    st.u8(26, 2, 3, 20, 1, 1, 14, 1, 2)
    st.u8(1)
    st.i32(order)
    st.u32(2)
    st.u8(26, 1, 79, 2)
    o.update(included_elements=[ELEMENTS[z - 1] for z in elements], excluded_elements=["Au"], background_fit_bins=b, selected_oxides=["Fe2O3", "CaO", "SiO2"], auto_id=True, order_nr=order, family_overrides=[("Fe", "K"), ("Au", "L")])
    if st.version >= 2:
        st.u8(2)
    o["drift_correction"] = "off" if st.version >= 2 else "unknown"
    if st.version >= 4:
        st.u32(1)
        st.u8(6)
    o["ignored_elements"] = ["C"] if st.version >= 4 else []
    return o, c


def analysis(st, kind, order, n=3, shape=(2, 2), var=(False, False), am=True, elements=(26, 8), spot=4.3):
    """write one analysis; what its signal should hold"""
    env = st.env
    st.u8({"msa": 1, "spot": 2, "line": 3, "map": 4, "difference": 5, "region": 6, "constructive": 7}[kind])
    o, c = common(st, n, order, am, elements, spot)
    w = {"kind": kind, "eds": o, "counts": c, "shape": (n,), "title": "%s %d" % ({"msa": "MSA", "spot": "Spot", "line": "Line", "map": "Map", "region": "Region"}.get(kind), order), "energy": (o["offset"], o["dispersion"])}
    if kind == "spot":
        o["position"] = {"x": st.f64(), "y": st.f64()}
    elif kind == "difference":
        st.u32(7, 9)
        w["title"] = "Difference 7 - 9"
    elif kind == "region":
        o["rectangle"] = {k: st.f64() for k in ("left", "top", "right", "bottom")}
    elif kind == "constructive":
        st.text("sum")
        st.u32(2)
        for i in range(2):
            st.u32(i)
            st.f64()
    elif kind in ("line", "map"):
        p = [st.f64() for _ in range(4)]
        if kind == "map":
            st.u32(2)
            st.f64(), st.f64()
            h, v = shape
            st.u32(v, h, n)
        else:
            h, v = shape[0], 1
            st.u32(h, n)
        st.f64(value=o["offset"])
        st.f64(value=o["dispersion"])
        e = eds(st, am=am, spot=spot)
        e.update(live_time=o["live_time"], real_time=o["real_time"])
        if kind == "line":
            e.update(begin={"x": p[0], "y": p[1]}, end={"x": p[2], "y": p[3]}, offset=o["offset"], dispersion=o["dispersion"])
        st.u8(*[int(x) for x in var])
        w["counts"] = [x for _ in range(h * v) for x in st.bins(n)]
        w["shape"] = (h, n) if kind == "line" else (h, v, n)
        for name, x in zip(("real_time_values", "live_time_values"), var):
            e[name] = [st.f64() for _ in range(h * v)] if x else [st.f64()] * (h * v)
        if kind == "line":
            st.u8(1)
            e["high_accuracy_quantification"] = True
        w["eds"] = e
    return w


def same_value(env, got, want):
    import math

    if isinstance(want, dict):
        return env.all(*([sorted(got) == sorted(want)] + [same_value(env, got[k], want[k]) for k in want if k in got]))
    if isinstance(want, tuple) and want and want[0] == "radians":
        return env.same(got, math.radians(want[1])) if not env.is_sym(want[1]) else env.same(got, want[1] * (math.pi / 180))
    if isinstance(want, list):
        g = list(np.asarray(got).ravel()) if not isinstance(got, list) else got
        return env.all(*([len(g) == len(want)] + [same_value(env, p, q) for p, q in zip(g, want)]))
    if isinstance(want, (str, bool, tuple)):
        return got == want
    return env.same(got, want)


def check_signal(env, s, w, label, tags=None, size=None):
    d = s["data"]
    env.check(tuple(d.shape) == w["shape"] and env.all(*[p == q for p, q in zip(d.ravel(), w["counts"])]), "every count at its point and channel")
    axes_match(env, s)
    e = s["axes"][-1]
    env.check(env.all(env.same(e["offset"], w["energy"][0] / 1e3), env.same(e["scale"], w["energy"][1] / 1e3)) and (e["units"], e["navigate"]) == ("keV", False), "energy axis in keV")
    g = s["metadata"]["General"]
    env.check(g["title"] == "%s, %s" % (label, w["title"]) and g["original_filename"] == "p.elid" and s["metadata"]["Signal"]["signal_type"] == "EDS_SEM", "title and type")
    o = s["original_metadata"]["acquisition"]["scan"]["detectors"]["EDS"]
    for k, x in w["eds"].items():
        env.check(k in o and same_value(env, o[k], x), "detector field " + k)
    if tags is not None and w["kind"] != "msa":
        env.check((g["date"], g["time"]) == ("2019-08-07", "09:37:31"), "date and time of the image")
    if w["kind"] == "map":
        y, x = s["axes"][:2]
        sc, prefix = unit_of(size)
        env.check(all(a["units"] == prefix + "m" and abs(a["scale"] - size / sc / a["size"]) < 1e-9 * a["scale"] and a["offset"] == 0 and a["navigate"] for a in (y, x)) and (y["name"], x["name"]) == ("y", "x"), "the map covers the scanned field")


def unit_of(v):
    return next(((f, p) for f, p in ((1, ""), (1e-3, "m"), (1e-6, "µ"), (1e-9, "n")) if v > f), (1, ""))


def field(tags, shape):
    f = {"nm": 1e-9, "um": 1e-6, "µm": 1e-6, "mm": 1e-3, "pm": 1e-12, "m": 1}[tags.get("unit", "nm")]
    return max(float(tags.get("height", "970.25")) * f * shape[0], float(tags.get("width", "975.5")) * f * shape[1])


def check_image(env, s, a, label, tags, rgb=False):
    d = s["data"]
    if rgb:
        env.check(d.dtype.names == ("R", "G", "B", "A")[:a.shape[2]] and tuple(d.shape) == tuple(a.shape[:2]), "colour image")
        env.check(env.all(*[env.same_array(d[n], a[..., i]) for i, n in enumerate(d.dtype.names)]), "every colour value")
    else:
        env.check(env.same_array(d, a), "every value of the image")
    env.check([(x["name"], x["size"], x["offset"]) for x in s["axes"]] == [("y", a.shape[0], 0), ("x", a.shape[1], 0)], "axis sizes")
    env.check(s["metadata"]["General"]["title"] == label, "title")
    y, x = s["axes"]
    if tags is None:
        env.check(all((q["scale"], q["units"]) == (1, "points") for q in (y, x)), "no calibration")
        return
    size = field(tags, a.shape)
    f = {"nm": 1e-9, "um": 1e-6, "µm": 1e-6, "mm": 1e-3, "pm": 1e-12, "m": 1}[tags.get("unit", "nm")]
    sc, prefix = unit_of(0.2 * size)
    near = lambda p, q: abs(p - q) <= 1e-9 * abs(q)
    env.check(near(x["scale"], float(tags.get("width", "975.5")) * f / sc) and near(y["scale"], float(tags.get("height", "970.25")) * f / sc) and x["units"] == y["units"] == prefix + "m", "pixel sizes")
    env.check((s["metadata"]["General"]["date"], s["metadata"]["General"]["time"]) == ("2019-08-07", "09:37:31"), "date and time")
    env.check(near(s["original_metadata"]["acquisition"]["scan"]["fieldSize"], size), "field size")


def read(env, st, lazy=None):
    from rsciio.phenom import file_reader
    from rsciio.phenom._api import ElidReader

    with project(env, st) as path:
        return file_reader(path) if lazy is None else ElidReader(path, block_size=lazy).dictionaries


def end(st):
    """analyses of the project"""
    if st.version >= 1:
        st.u32(0)
        st.u32(0)


def h_analysis(env, version, kind, second="spot", block=None, n=3, shape=(2, 2), var=(False, False), tags={}, elements=(26, 8)):
    tags = dict(tags)
    st = Stream(env, version)
    st.u32(1)
    a = st.image("fei", (2, 3), **tags)
    st.text("Image 1")
    st.u32(2)
    spot = float(tags.get("spot", "4.3"))
    w = [analysis(st, kind, 1, n, shape, var, elements=elements, spot=spot), analysis(st, second, 4, 2, spot=spot)]
    end(st)
    r = read(env, st, block)
    w = [x for x in w if x["kind"] != "constructive"]
    env.check(len(r) == 1 + len(w), "one signal for the image and for each analysis")
    check_image(env, r[0], a, "Image 1", tags)
    size = field(tags, a.shape) * float(tags.get("sscale", "1"))
    for s, x in zip(r[1:], w):
        check_signal(env, s, x, "Image 1", tags, size)
    env.cover("read")


def h_images(env, version, kinds, dtype="u1", rgb=0, unit="nm", project_analyses=True):
    st = Stream(env, version)
    st.u32(len(kinds))
    want = []
    tags = dict(width="975.5", height="2000.25", unit=unit)
    for i, k in enumerate(kinds):
        a = st.image(k, (2, 3) + ((rgb,) if rgb else ()), dtype, **tags)
        st.text("Image %d µ" % i)
        st.u32(1)
        want.append((k, a, analysis(st, "msa" if k == "plain" else "region" if k == "fei" else "msa", i, 2, am=k == "fei")))
    if version >= 1:
        if project_analyses:
            st.u32(1)
            analysis(st, "msa", 3, 2, am=False)
            st.u32(1)
            analysis(st, "constructive", 4, 2, am=False)
        else:
            end(st)
    r = read(env, st)
    env.check(len(r) == sum(2 if k != "none" else 1 for k in kinds), "a signal for each image and analysis of an image")
    i = 0
    for n, (k, a, w) in enumerate(want):
        label = "Image %d µ" % n
        if k != "none":
            check_image(env, r[i], a, label, tags if k == "fei" else None, bool(rgb))
            i += 1
        check_signal(env, r[i], w, label)
        i += 1
    env.cover("read")


def h_mapping(env, version):
    """conversions to the units of the metadata"""
    import math

    st = Stream(env, version)
    st.u32(1)
    st.image("fei", (2, 3))
    st.text("Image 1")
    st.u32(1)
    w = analysis(st, "spot", 1, 2)
    end(st)
    s = read(env, st)[1]
    out = {}
    for k, (dest, fn) in s["mapping"].items():
        v = dget(s["original_metadata"], k)
        if v is not None:
            out.setdefault(dest.replace("Acquisition_instrument.SEM.", ""), []).append(fn(v))
    e = w["eds"]
    x = {"Detector.EDS.energy_resolution_MnKa": e["detector_resolution"], "Detector.EDS.live_time": e["live_time"], "Detector.EDS.real_time": e["real_time"]}
    for k, v in x.items():
        env.check(env.same(out[k][0], v), k)
    env.check(env.same(out["beam_energy"][0], e["high_tension"] / 1e3) and out["beam_energy"][-1] == 15.0, "beam energy in keV")
    env.check(out["microscope"] == ["MVE-7"], "microscope")
    near = lambda p, q: abs(p - q) <= 1e-9 * abs(q)
    env.check(near(out["Stage.x"][0], -2.5) and near(out["Stage.y"][0], -0.7), "stage position in mm")
    deg = lambda v: v * (180 / math.pi) if env.is_sym(v) else math.degrees(v)
    env.check(env.same(out["Detector.EDS.azimuth_angle"][0], deg(e["detector_azimuth"])), "azimuth in degrees")
    if version:
        env.check(env.same(out["Detector.EDS.elevation_angle"][0], deg(e["detector_elevation"])) and env.same(out["Stage.tilt_alpha"][0], deg(e["sample_tilt_angle"])), "angles in degrees")
        env.check(env.same(out["working_distance"][0], e["working_distance"] / 1e-3), "working distance in mm")
    else:
        env.check(near(out["working_distance"][0], 8.125), "working distance in mm")
    env.cover("read")


def h_refused(env, what):
    from rsciio.phenom import file_reader

    st = Stream(env, 4)
    if what == "version":
        v = env.int("v", 5, 2**31 - 1)
        st.cells[4:8] = list(env.pack("<i", v))
    elif what == "id":
        i = env.bytes("id", 4)
        env.assume(env.any(*[p != q for p, q in zip(i, b"EID2")]))
        st.cells[:4] = list(i)
    st.u32(0)
    end(st)
    if what in ("gzip", "other"):
        path = env.file("p.elid", [0x1F, 0x8B] + [0] * 20 if what == "gzip" else list(b"BZh9 no bzip2 here"))
        r, e = env.attempt(file_reader, path)
    elif what == "lazy":
        with project(env, st) as path:
            r, e = env.attempt(file_reader, path, lazy=True)
        env.check(isinstance(e, NotImplementedError), "lazy reading is refused")
    else:
        with project(env, st) as path:
            r, e = env.attempt(file_reader, path)
    env.check(e is not None, "refused")
    env.cover("read")


def harnesses(tier):
    hs = []
    add = lambda name, f, p: hs.append(H(name, f, p, 90, F, "every count, image value and floating point field", ["read"]))
    for v in range(5):
        for k in ("msa", "spot", "line", "map", "difference", "region", "constructive"):
            add(f"{k} v{v}", h_analysis, dict(version=v, kind=k, second="map" if k == "spot" else "spot"))
        add(f"images v{v}", h_images, dict(version=v, kinds=("fei", "plain", "fei")))
        add(f"mapping v{v}", h_mapping, dict(version=v))
    for var in ((True, False), (False, True), (True, True)):
        for k in ("line", "map"):
            add(f"{k} times {var}", h_analysis, dict(version=4, kind=k, var=var, shape=(2, 3)))
    for block in (1, 7, 64):
        add(f"blocks {block}", h_analysis, dict(version=3, kind="map", block=block))
    add("no file", h_images, dict(version=3, kinds=("none", "plain")))
    add("no analyses", h_images, dict(version=3, kinds=("plain",), project_analyses=False))
    for dt, rgb in (("u1", 3), ("u1", 4), ("<u2", 0), ("<u2", 3)):
        add(f"image {dt} {rgb}", h_images, dict(version=2, kinds=("plain", "fei") if not rgb else ("plain",), dtype=dt, rgb=rgb))
    for u in ("um", "mm", "pm", "m"):
        add(f"unit {u}", h_images, dict(version=2, kinds=("fei",), unit=u))
    add("v0 wide spot", h_analysis, dict(version=0, kind="spot", tags=(("spot", "5.1"),)))
    add("scan scale", h_analysis, dict(version=2, kind="map", tags=(("sscale", "0.25"), ("unit", "um")), shape=(1, 3)))
    add("elements", h_analysis, dict(version=2, kind="msa", elements=tuple(range(1, 119))))
    for w in ("version", "id", "gzip", "other", "lazy"):
        add(f"refused {w}", h_refused, dict(what=w))
    return hs
