"""TIFF files: written and read back, and the calibrations of microscopes."""
import contextlib
import warnings

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "tifffile is trusted for pages and tags: the real library writes and reads the files (zeros in place of symbolic pixels, which are kept beside and handed out page by page); the plain library on replay",
    "for files of microscopes the parsed tags are handed to the reader by a stand-in; numbers in them symbolic where the reader only passes or scales them by powers of two or ten",
    "sizes, scales, offsets and units concrete (chosen by the solver); pixels symbolic; images of 2 and 3 dimensions as documented",
]
F = ["rsciio.tiff._api." + n for n in ("file_reader", "file_writer", "_read_tiff", "_load_data", "_parse_scale_unit", "_order_axes_by_name", "_build_axes_dictionaries", "_get_tags_dict", "_get_imagej_kwargs", "_get_dm_kwargs_extratag", "_get_scale_unit", "_add_axes_digital_micrograph", "_add_axes_imagej", "_axes_fei", "_axes_zeiss", "_axes_tvips", "_axes_olympus_sis", "_axes_jeol_sightx", "_axes_hamamatsu_streak", "_axes_force_read", "_get_scales_from_x_y_resolution")] + ["rsciio.utils.rgb.rgbx2regular_array", "rsciio.utils.rgb.regular_array2rgbx"]
SCALES = [1.0, 0.123456789123, 2e-9, 512.123456789, -0.25, 3e11]


def near(a, b, tol=1e-9):
    return abs(float(a) - float(b)) <= tol * abs(float(b))


class Handle:
    """page or series of the real library, with symbolic pixels"""

    def __init__(self, real, data):
        self._real, self._data = real, data

    def __getattr__(self, k):
        return getattr(self._real, k)

    def asarray(self, out=None):
        return self._data.reshape(tuple(self._real.shape))


class PageHandle(Handle):
    pass


@contextlib.contextmanager
def library(env, stored):
    """tifffile, where pixels are symbolic: stored[path] = arrays in the order of the file"""
    if not env.symbolic:
        yield
        return
    import tifffile

    from rsciio.tiff import _api as m

    def imwrite(filename, data, **kw):
        if getattr(data, "dtype", None) is not None and type(data) is not np.ndarray:
            stored.setdefault(str(filename), []).append(data)
            data = np.zeros(data.shape, np.dtype(str(data.dtype)))
        tifffile.imwrite(filename, data, **kw)

    class TiffFile:
        def __init__(self, filename, **kw):
            self._real = tifffile.TiffFile(filename, **kw)
            pages = []
            for a in stored[str(filename)]:
                i = len(pages)
                n = 0
                size = 1
                for k in self._real.pages[i].shape:
                    size *= k
                flat = a.reshape(-1)
                while n < flat.shape[0]:
                    pages.append(flat[n : n + size])
                    n += size
            self._pages = pages

        def __getattr__(self, k):
            return getattr(self._real, k)

        @property
        def pages(self):
            return [PageHandle(p, d) for p, d in zip(self._real.pages, self._pages)]

        @property
        def series(self):
            out, k = [], 0
            for s in self._real.series:
                n = 1
                for x in s.shape:
                    n *= x
                n //= self._pages[k].shape[0]
                out.append(Handle(s, np.concatenate(self._pages[k : k + n]) if n > 1 else self._pages[k]))
                k += n
            return out

    old = m.imwrite, m.TiffFile, m.TiffPage
    m.imwrite, m.TiffFile, m.TiffPage = imwrite, TiffFile, PageHandle
    try:
        yield
    finally:
        m.imwrite, m.TiffFile, m.TiffPage = old


def pixels(env, name, shape, dtype, rgb=0):
    if not rgb:
        return env.array(name, shape, dtype), None
    from rsciio.utils.rgb import regular_array2rgbx

    a = env.array(name, shape + (rgb,), dtype)
    return regular_array2rgbx(a), a


def check_pixels(env, got, data, plain, lazy, names="RGBA"):
    env.check(hasattr(got, "dask") == lazy, "dask arrays exactly when lazy")
    got = env.nd(got)
    if plain is None:
        env.check(env.same_array(got, data, False), "every pixel")
    else:
        env.check(tuple(got.dtype.names) == tuple(names[: plain.shape[-1]]), "colours")
        env.check(tuple(got.shape) == tuple(plain.shape[:-1]), "shape")
        for i, c in enumerate(got.dtype.names):
            env.check(env.same_array(got[c], plain[..., i], False), "every pixel of the colour")


def h_roundtrip(env, shape, dtype="uint8", rgb=0, lazy=False, units=("nm", "µm", "s"), noise=False, free=True):
    from rsciio.tiff import file_reader, file_writer

    n = len(shape)
    data, plain = pixels(env, "d", shape, dtype, rgb)
    sc = [env.choose(f"s{i}", SCALES if free else [0.5]) if i >= n - 2 else 0.3 for i in range(n)]
    of = [env.choose(f"o{i}", [0.0, -2.5]) if i >= n - 1 else 7.25 for i in range(n)]
    un = list(units)[-n:]
    md = {"General": {"title": "x", "date": "2020-01-02", "time": "03:04:05"}, "Signal": {}, "Sample": {"note v1.2": {"no": 3}}}
    if noise:
        md["Signal"] = {"quantity": "Counts (e)", "Noise_properties": {"Variance_linear_model": {"gain_factor": 2.5, "gain_offset": -1.25}}}
    s = dict(data=data, metadata=md, original_metadata={}, axes=[dict(size=shape[i], name="abc"[i], scale=sc[i], offset=of[i], units=un[i], navigate=i < n - 2) for i in range(n)])
    st = {}
    with library(env, st), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        file_writer(env.path("a.tif"), s)
        out = file_reader(env.path("a.tif"), lazy=lazy)
    env.check(len(out) == 1, "one signal")
    o = out[0]
    check_pixels(env, o["data"], data, plain, lazy)
    env.check(len(o["axes"]) == n, "number of axes")
    for i, a in enumerate(o["axes"]):
        env.check(a["size"] == shape[i] and a["navigate"] == (i < n - 2) and a["name"] == ["image series", "height", "width"][i - n], "size, name and kind of the axis")
        env.check(near(a["scale"], sc[i]) and near(a["offset"], of[i]), "scale and offset of the axis")
        env.check(a["units"] == (un[i] or ""), "units of the axis")
    g = o["metadata"]
    env.check(g["General"]["date"] == "2020-01-02" and g["General"]["time"] == "03:04:05" and g["General"]["original_filename"] == "a.tif", "date and time")
    if noise:
        env.check(g["Signal"]["quantity"] == "Counts (e)" and g["Signal"]["Noise_properties"]["Variance_linear_model"] == {"gain_factor": 2.5, "gain_offset": -1.25}, "noise")
    env.cover("read")


def h_plain(env, shape, dtype, rgb=0, lazy=False, tags=False):
    """without calibration"""
    from rsciio.tiff import file_reader, file_writer

    data, plain = pixels(env, "d", shape, dtype, rgb)
    n = len(shape)
    s = dict(data=data, metadata={"General": {"title": "x"}}, original_metadata={}, axes=[axis('abc'[i], k, i < n - 2, i, 0.5) for i, k in enumerate(shape)])
    st = {}
    kw = dict(extratags=[(65000, "s", 1, "Random metadata", False)], export_scale=True) if tags else dict(export_scale=False)
    with library(env, st), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        file_writer(env.path("a.tif"), s, **kw)
        out = file_reader(env.path("a.tif"), lazy=lazy)
    env.check(len(out) == 1, "one signal")
    o = out[0]
    check_pixels(env, o["data"], data, plain, lazy)
    for i, a in enumerate(o["axes"]):
        env.check(a["size"] == shape[i] and a["navigate"] == (i < n - 2) and (a["scale"] == (0.5 if tags else 1.0)) and a["offset"] == 0, "axes")
    if tags:
        env.check(o["original_metadata"]["65000"] == "Random metadata", "tag")
    env.cover("read")


def write_all(env, st, arrays, **kw):
    """file of several images, by the library"""
    import tifffile

    with tifffile.TiffWriter(env.path("a.tif")) as w:
        for a, k in arrays:
            w.write(np.zeros(a.shape, np.dtype(str(a.dtype))) if env.symbolic else a, **{**kw, **k})
            st.setdefault(env.path("a.tif"), []).append(a)


def h_several(env, shapes, as_list, lazy=False, dtypes=None):
    from rsciio.tiff import file_reader

    st = {}
    arrs = [env.array(f"d{i}", s, (dtypes or ["uint8"] * 9)[i]) for i, s in enumerate(shapes)]
    write_all(env, st, [(a, {}) for a in arrs], metadata=None, photometric="minisblack")
    with library(env, st), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = file_reader(env.path("a.tif"), lazy=lazy, multipage_as_list=as_list)
    want = []
    for a in arrs:
        want += [a] if not as_list or a.ndim == 2 else [a[i] for i in range(a.shape[0])]
    if not as_list and all(s == shapes[0] for s in shapes):
        env.check(len(out) == 1, "one stack")
        check_pixels(env, out[0]["data"], np.concatenate([a.reshape((-1,) + a.shape[-2:]) for a in want]), None, lazy)
    else:
        env.check(len(out) == len(want), "number of signals")
        for o, a in zip(out, want):
            check_pixels(env, o["data"], a, None, lazy)
            env.check([x["size"] for x in o["axes"]] == list(a.shape), "axes")
    env.cover("read")


def h_planar(env, shape, samples, planar, lazy=False, dtype="uint8"):
    """colour images, colours beside each other or one after the other"""
    from rsciio.tiff import file_reader

    a = env.array("d", (shape + (samples,)) if not planar else ((samples,) + shape), dtype)
    st = {}
    write_all(env, st, [(a, {})], metadata=None, photometric="rgb", planarconfig="separate" if planar else "contig", extrasamples=["unassalpha"] if samples == 4 else None)
    with library(env, st), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = file_reader(env.path("a.tif"), lazy=lazy)
    env.check(len(out) == 1, "one signal")
    check_pixels(env, out[0]["data"], None, np.moveaxis(a, 0, -1) if planar else a, lazy)
    env.check([x["size"] for x in out[0]["axes"]] == list(shape) and [x["name"] for x in out[0]["axes"]] == ["height", "width"], "axes")
    env.cover("read")


# ---------------------------------------------------------------------------
class Tag:
    def __init__(self, name, value):
        self.name, self.value = name, value


class Tags(list):
    def __getitem__(self, k):
        for t in self:
            if t.name == k:
                return t
        raise KeyError(k)


class Page:
    def __init__(self, data, tags, kind, axes="YX"):
        self.shape, self.dtype, self.axes, self.photometric, self._data = tuple(data.shape), data.dtype, axes, 1, data
        self.tags = Tags(Tag(k, v) for k, v in {"PhotometricInterpretation": 1, **tags}.items())
        self.is_imagej, self.is_sis, self.is_fei, self.is_sem, self.is_tvips = (kind == k for k in ("imagej", "sis", "fei", "sem", "tvips"))
        self.pages = [self]

    def asarray(self, out=None):
        return self._data


class Tiff:
    def __init__(self, page, kind, extra, fh=None):
        self.pages = self.series = [page]
        self.flags = {kind}
        self.fei_metadata = extra if kind == "fei" else None
        self.imagej_metadata = extra if kind == "imagej" else None
        self.filehandle = fh

    def close(self):
        if self.filehandle is not None:
            self.filehandle.close()


def foreign(env, data, tags, kind, extra=None, fh=None, axes="YX", **kw):
    from rsciio.tiff import _api as m

    t = Tiff(Page(data, tags, kind, axes), kind, extra, fh)
    old = m.TiffFile, m.TiffPage
    m.TiffFile, m.TiffPage = lambda f, **k: t, type("TiffPage", (), {})
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = m.file_reader(env.path("b.tif"), **kw)
        env.check(len(out) == 1, "one signal")
        o = out[0]
        check_pixels(env, o["data"], data, None, bool(kw.get("lazy")))
    finally:
        m.TiffFile, m.TiffPage = old
    return o


def get(d, path):
    for k in path.split("."):
        d = d[k]
    return d


def mapped(o, path):
    """metadata at a path, through the mapping handed out"""
    for k, v in o["mapping"].items():
        if v is not None and v[0] == path:
            x = get(o["original_metadata"], k)
            return v[1](x) if v[1] else x
    raise KeyError(path)


def two(env, o, y, x, units, exact=True, tol=1e-9):
    ay, ax = o["axes"][-2:]
    env.check(ay["name"] == "height" and ax["name"] == "width", "names of the axes")
    same = env.same if exact else lambda a, b: near(a, b, tol)
    env.check(same(ay["scale"], y), "scale along y")
    env.check(same(ax["scale"], x), "scale along x")
    env.check(ay["units"] == units and ax["units"] == units, "units")


def h_fei(env, case, lazy=False):
    d = env.array("d", (3, 2), "uint16")
    pw, ph = env.float("pw"), env.float("ph")
    hv, wd, i = env.choose("hv", [5000.0, 30000.0, 1.5]), env.choose("wd", [0.004, 0.01]), env.choose("i", [1e-9, 2.5e-10])
    md = {"Beam": {"HV": hv}, "Stage": {"StageX": env.float("sx"), "StageT": env.float("st"), "WorkingDistance": wd}, "EBeam": {"BeamCurrent": i}, "User": {"Date": "10/26/2016", "Time": "10:12:18 AM", "User": "supervisor"}, "System": {"SystemType": "Helios"}}
    if case == "scan":
        md["Scan"] = {"PixelWidth": pw, "PixelHeight": ph, "Dwelltime": env.float("dw")}
    elif case == "beam":
        md["IRBeam"] = {"HFW": pw, "VFW": ph}
        md["Image"] = {"ResolutionX": 2, "ResolutionY": 4}
    o = foreign(env, d, {"FEI_SFEG" if case == "none" else "FEI_HELIOS": {}}, "fei", md, lazy=lazy)
    if case == "none":
        two(env, o, 1.0, 1.0, None)
    elif case == "scan":
        two(env, o, ph, pw, "m")
        env.check(env.same(mapped(o, "Acquisition_instrument.SEM.dwell_time"), md["Scan"]["Dwelltime"]), "dwell time")
    else:
        two(env, o, ph / 4, pw / 2, "m")
    S = "Acquisition_instrument.SEM."
    env.check(near(mapped(o, S + "beam_energy"), hv / 1e3) and near(mapped(o, S + "working_distance"), wd * 1e3) and near(mapped(o, S + "beam_current"), i * 1e9), "beam, working distance")
    env.check(env.same(mapped(o, S + "Stage.x"), md["Stage"]["StageX"]) and env.same(mapped(o, S + "Stage.tilt"), md["Stage"]["StageT"]), "stage")
    env.check(mapped(o, "General.date") == "2016-10-26" and mapped(o, "General.time") == "10:12:18" and mapped(o, "General.authors") == "supervisor", "date, time and author")
    env.cover("read")


def h_zeiss(env, w, lazy=False):
    d = env.array("d", (3, w), "uint8")
    p, kv, mag, rot = env.float("p"), env.float("kv"), env.float("mag"), env.float("rot")
    x, wd = env.choose("x", [1.5, -70.25]), env.choose("wd", [4.5, 12.0])
    cz = {"": (0, 0, 0, p, 1.0), "ap_actualkv": ("EHT", kv, "kV"), "ap_mag": ("Mag", mag, "x"), "ap_stage_at_x": ("X", x, "µm"), "ap_stage_at_y": ("Y", x, "m"), "ap_wd": ("WD", wd, "mm"), "ap_stage_at_r": ("R", rot, "°"), "ap_iprobe": ("I", x, "pA"), "ap_date": ("Date", "23 Dec 2015"), "ap_time": ("Time", "9:40:32"), "sv_user_name": ("User", "me"), "dp_dwell_time": ("Dwell", wd, "µs")}
    o = foreign(env, d, {"CZ_SEM": cz}, "sem", lazy=lazy)
    two(env, o, p * 1024 / w, p * 1024 / w, "m")
    S = "Acquisition_instrument.SEM."
    env.check(env.all([env.same(mapped(o, S + "beam_energy"), kv), env.same(mapped(o, S + "magnification"), mag), env.same(mapped(o, S + "Stage.rotation"), rot)]), "instrument")
    env.check(near(mapped(o, S + "Stage.x"), x * 1e-3, 1e-5) and near(mapped(o, S + "Stage.y"), x * 1e3, 1e-5) and near(mapped(o, S + "working_distance"), wd, 1e-5) and near(mapped(o, S + "beam_current"), x * 1e-3, 1e-5) and near(mapped(o, S + "dwell_time"), wd * 1e-6, 1e-5), "quantities with units")
    env.check(mapped(o, "General.date") == "2015-12-23" and mapped(o, "General.time") == "09:40:32" and mapped(o, "General.authors") == "me", "date, time and author")
    env.cover("read")


def h_tvips(env, case, lazy=False):
    d = env.array("d", (2, 3), "uint16")
    sx, sy = env.float("sx"), env.float("sy")
    mag, ht = env.float("mag"), env.choose("ht", [200000.0, 80000.0])
    pos = [env.choose("px", [0.0, 1.5e-5]), -2e-4, 0.25, 10.0, -3.5]
    t = {"TemMagnification": mag, "CameraType": "F416", "ExposureTime": 1500.0, "TemHighTension": ht, "Comment": "", "Time": 3725, "Date": 5, "TemStagePosition": pos, "TemMode": 3 if case == "diffraction" else 1}
    if case != "resolution":
        t.update(PixelSizeX=sx, PixelSizeY=sy)
    rx, ry = env.choose("rx", [(200, 1), (3, 7)]), env.choose("ry", [(200, 1), (5, 2)])
    o = foreign(env, d, {"TVIPS": t, "XResolution": rx, "YResolution": ry}, "tvips", lazy=lazy)
    if case != "resolution":
        two(env, o, sy, sx, "nm")
    else:
        two(env, o, ry[1] / ry[0] / 100, rx[1] / rx[0] / 100, "m", False)
    T = "Acquisition_instrument.TEM."
    env.check(env.same(mapped(o, T + ("camera_length" if case == "diffraction" else "magnification")), mag), "magnification or camera length")
    env.check(near(mapped(o, T + "beam_energy"), ht / 1e3) and near(mapped(o, T + "Detector.Camera.exposure"), 1.5) and mapped(o, T + "Detector.Camera.name") == "F416", "instrument")
    st = mapped(o, T + "Stage")
    env.check(near(st["x"], pos[0] * 1e3) and near(st["y"], -0.2) and near(st["z"], 250.0) and st["tilt_alpha"] == 10.0 and st["tilt_beta"] == -3.5, "stage")
    env.check(mapped(o, "General.time") == "1:02:05" and mapped(o, "General.notes") is None, "time and notes")
    env.cover("read")


def h_sis(env, tag, lazy=False):
    d = env.array("d", (2, 3), "uint16")
    x, y = env.choose("x", [2.5e-9, 1e-6]), env.choose("y", [3e-9, 1e-6])
    md = {"pixelsizex": x, "pixelsizey": y, "magnification": env.float("m"), "cameraname": "cam"}

    o = foreign(env, d, {tag: md}, "sis", lazy=lazy)
    two(env, o, y, x, "m", False)
    env.check(env.same(mapped(o, "Acquisition_instrument.TEM.magnification"), md["magnification"]), "magnification")
    env.cover("read")


JEOL = """<?xml version="1.0"?><TemReporter><Eos><EosMode>%s</EosMode></Eos><IlluminationSystem><ImageField>modeBrightField</ImageField></IlluminationSystem><ImageFormingSystem><ImageFormingMode>modeMAG1</ImageFormingMode><ScanningImageFormingMode>modeSM_MAG</ScanningImageFormingMode><SelectorString>%s</SelectorString><SelectorValue>%s</SelectorValue><SelectorUnitString>%s</SelectorUnitString><ModeString>%s</ModeString></ImageFormingSystem><ElectronGun><AccelerationVoltage>%s</AccelerationVoltage><BeamCurrent>1500</BeamCurrent></ElectronGun><GonioStage><StagePosition><TX>1.5</TX><TY>-2.5</TY></StagePosition><MZ>2500000</MZ></GonioStage><Instruments>JEM</Instruments><DateTime>2022-03-04T11:22:33.1234567+09:00</DateTime></TemReporter>"""


def h_jeol(env, mode, lazy=False):
    d = env.array("d", (2, 3), "uint16")
    value, unit = env.choose("value", [("20000", "x"), ("5000", "x")] if mode != "DIFF" else [("50", "cm"), ("800", "mm"), ("1.5", "m")])
    inch = env.choose("inch", [True, False])
    rx, ry = env.choose("rx", [(300, 1), (7, 2)]), env.choose("ry", [(300, 1), (5, 3)])
    ht = 200000.0
    o = foreign(env, d, {"Make": "JEOL Ltd.", "ImageDescription": JEOL % ("eosASID" if mode == "STEM" else "eosTEM", "X" + value, value, unit, "MAG" if mode == "STEM" else mode, ht), "ResolutionUnit": 2 if inch else 3, "XResolution": rx, "YResolution": ry, "DateTime": "x"}, "none", lazy=lazy)
    f = (0.0254 if inch else 0.01) * 1e9
    if mode != "DIFF":
        f /= float(value)
        units = "nm"
    else:
        length = float(value) * {"mm": 1e-3, "cm": 1e-2, "m": 1}[unit] * 1e9
        lam = 2.5079e-3  # nm, at 200 kV
        f = f / length / lam
        units = "1 / nm"
    if mode == "STEM":
        two(env, o, 1.0, 1.0, None)
    else:
        two(env, o, f * ry[1] / ry[0], f * rx[1] / rx[0], units, False, 1e-3)
    g = o["metadata"]["General"]
    env.check(g["date"] == "2022-03-04" and g["time"] == "11:22:33.123456" and g["time_zone"] == "+09:00", "date and time")
    T = "Acquisition_instrument.TEM."
    env.check(near(mapped(o, T + "beam_energy"), 200.0) and near(mapped(o, T + "beam_current"), 1.5) and near(mapped(o, T + "Stage.z"), 2.5) and mapped(o, T + "Stage.tilt_alpha") == 1.5 and mapped(o, T + "Stage.tilt_beta") == -2.5, "instrument")
    env.check(mapped(o, T + "acquisition_mode") == ("STEM" if mode == "STEM" else "TEM"), "mode")
    env.check(g["title"] == f"{'STEM' if mode == 'STEM' else 'TEM'}, BrightField, {'SM_MAG' if mode == 'STEM' else 'MAG1'}, X{value}", "title")
    env.check(float(mapped(o, T + ("magnification" if mode != "DIFF" else "camera_length"))) == float(value), "magnification or camera length")
    env.cover("read")


def h_force(env, unit, lazy=False):
    d = env.array("d", (2, 3), "uint16")
    rx, ry = env.choose("rx", [(300, 1), (7, 2), (1, 3)]), env.choose("ry", [(300, 1), (5, 3)])
    o = foreign(env, d, {"ResolutionUnit": {"inch": 2, "cm": 3, "none": 1}[unit], "XResolution": rx, "YResolution": ry, "DateTime": "2020/01/02 03:04"}, "none", lazy=lazy, force_read_resolution=True)
    f = {"inch": 25400.0, "cm": 1e4, "none": None}[unit]
    if f:
        two(env, o, f * ry[1] / ry[0], f * rx[1] / rx[0], "µm", False)
    else:
        two(env, o, 1.0, 1.0, None)
    env.check(o["metadata"]["General"]["date"] == "2020-01-02" and o["metadata"]["General"]["time"] == "03:04:00", "date and time")
    env.cover("read")


def h_imagej(env, unit, axes, lazy=False):
    shape = (2, 2, 3)[-len(axes) :]
    d = env.array("d", shape, "uint8")
    rx, ry = env.choose("rx", [(300, 1), (7, 2), (1, 3)]), env.choose("ry", [(300, 1), (5, 3)])
    sp = env.float("sp")
    md = {"ImageJ": "1.52", "spacing": sp}
    if unit:
        md["unit"] = unit
    o = foreign(env, d, {"XResolution": rx, "YResolution": ry}, "imagej", md, lazy=lazy, axes=axes)
    u = {"micron": "µm"}.get(unit)
    if unit:
        two(env, o, ry[1] / ry[0], rx[1] / rx[0], u, False)
    else:
        two(env, o, 1.0, 1.0, None)
    if len(axes) == 3:
        env.check(env.same(o["axes"][0]["scale"], sp) and o["axes"][0]["navigate"], "spacing of the stack")
    env.cover("read")


def h_dm(env, axes, lazy=False):
    shape = (2, 2, 3)[-len(axes) :]
    d = env.array("d", shape, "int16")
    v = {k: env.float(f"t{k}") for k in ("65006", "65007", "65008", "65009", "65010", "65011", "65024", "65025")}
    o = foreign(env, d, {"65003": "nm", "65004": "µm", "65005": "s", "65022": "e", **v}, "none", lazy=lazy, axes=axes)
    for a, (u, off, sc) in zip(o["axes"][::-1], (("nm", "65006", "65009"), ("µm", "65007", "65010"), ("s", "65008", "65011"))):
        env.check(a["units"] == u, "units")
        env.check(env.all([env.same(a["offset"], v[off]), env.same(a["scale"], v[sc])]), "scale and offset")
    s = o["metadata"]["Signal"]
    n = s["Noise_properties"]["Variance_linear_model"]
    env.check(s["quantity"] == "e" and env.is_sym(n["gain_factor"]) == env.symbolic, "quantity")
    env.check(env.all([env.same(n["gain_factor"], v["65025"]), env.same(n["gain_offset"], v["65024"])]), "noise")
    env.cover("read")


def h_streak(env, kind, focus=False, lazy=False):
    """Hamamatsu streak image: the axes lie in the file"""
    ny, nx = 4, 3
    d = env.array("d", (ny, nx), "uint16")
    x0, dx = env.choose("x0", [400.0, -3.0]), env.choose("dx", [0.5, -2.0])
    xax = np.array([x0 + dx * i for i in range(nx)], "float32")
    yax = np.array([0.0, 1.0, 2.5, 4.5], "float32")
    with open(env.path("b.tif"), "wb") as f:
        f.write(b"\0" * 16 + xax.tobytes() + b"\1" * 8 + yax.tobytes() + b"\2" * 8)
    desc = "[Application],Date=\"01/02/2020\",Software=\"HPD-TA\"\n[Scaling],ScalingXType=2,ScalingXUnit=\"nm\",ScalingXScalingFile=\"#16,%04d\",ScalingYUnit=\"ns\",ScalingYScalingFile=\"%s\"" % (nx, "Focus mode" if focus else "#%d,%04d" % (16 + 4 * nx + 8, ny))
    o = foreign(env, d, {"Artist": "Copyright Hamamatsu", "Software": "HPD-TA 9.5", "ImageDescription": desc, "ImageWidth": nx, "ImageLength": ny}, "none", fh=open(env.path("b.tif"), "rb"), lazy=lazy, hamamatsu_streak_axis_type=kind)
    ay, ax = o["axes"]
    env.check(ax["name"] == "width" and ax["units"] == "nm" and ax["size"] == nx and near(ax["scale"], dx, 1e-5) and near(ax["offset"], x0, 1e-5), "wavelengths")
    env.check(ay["name"] == "height" and ay["units"] == "ns", "time axis")
    want = list(range(ny)) if focus else [float(v) for v in yax]
    if kind == "data":
        env.check([float(v) for v in ay["axis"]] == want, "times")
    elif kind == "functional":
        env.check(all(abs(ay["a"] * i**3 + ay["b"] * i**2 + ay["c"] * i + ay["d"] - v) < 1e-5 for i, v in enumerate(want)) and ay["size"] == ny, "times")
    else:
        m = sum(want) / ny
        sl = sum((i - (ny - 1) / 2) * (v - m) for i, v in enumerate(want)) / sum((i - (ny - 1) / 2) ** 2 for i in range(ny))
        env.check(near(ay["scale"], sl, 1e-5) and abs(ay["offset"] - (m - sl * (ny - 1) / 2)) < 1e-5 and ay["size"] == ny, "times")
    sc = o["original_metadata"]["ImageDescriptionParsed"]["Scaling"]
    env.check([float(v) for v in sc["ScalingYaxis"]] == want and [float(v) for v in sc["ScalingXaxis"]] == [float(v) for v in xax], "axes in the metadata")
    env.cover("read")


def harnesses(tier):
    hs = []

    def add(name, fn, p, budget=60, bounds="images up to 4 x 3, stacks of up to 3"):
        hs.append(H(name, fn, p, budget=budget, functions=F, bounds=bounds, covers=["read"]))

    for lazy in (False, True):
        z = " lazy" if lazy else ""
        for shape, dt in (((2, 3), "uint8"), ((3, 2), "float32"), ((2, 3, 2), "int16"), ((3, 2, 2), "float64")):
            add(f"round trip {shape} {dt}{z}", h_roundtrip, dict(shape=shape, dtype=dt, lazy=lazy))
        for shape, dt, rgb in (((2, 3), "uint8", 3), ((3, 2), "uint16", 4), ((2, 2, 3), "uint8", 3)):
            add(f"round trip colours {shape} {rgb}{z}", h_roundtrip, dict(shape=shape, dtype=dt, rgb=rgb, lazy=lazy, free=False))
            add(f"plain colours {shape} {rgb}{z}", h_plain, dict(shape=shape, dtype=dt, rgb=rgb, lazy=lazy))
        for shape, dt in (((2, 3), "uint32"), ((3, 2, 2), "uint16"), ((2, 3), "complex64")):
            add(f"plain {shape} {dt}{z}", h_plain, dict(shape=shape, dtype=dt, lazy=lazy))
        for al in (False, True):
            add(f"several list={al}{z}", h_several, dict(shapes=[(2, 3), (3, 2), (2, 2)], as_list=al, lazy=lazy, dtypes=["uint8", "uint16", "float32"]))
            add(f"stack list={al}{z}", h_several, dict(shapes=[(3, 2, 2)], as_list=al, lazy=lazy))
        for planar in (False, True):
            for s in (3, 4):
                add(f"colours {s} planar={planar}{z}", h_planar, dict(shape=(2, 5), samples=s, planar=planar, lazy=lazy))
        for c in ("scan", "beam", "none"):
            add(f"FEI {c}{z}", h_fei, dict(case=c, lazy=lazy))
        add(f"DM{z}", h_dm, dict(axes="YX", lazy=lazy))
    add("round trip noise", h_roundtrip, dict(shape=(2, 3), noise=True, units=("1/nm", "Å"), free=False))
    add("round trip no units", h_roundtrip, dict(shape=(2, 3, 2), units=(None, None, None), free=False, dtype="uint16"))
    add("plain tags", h_plain, dict(shape=(2, 3), dtype="uint8", tags=True))
    add("colours 16 bit planar", h_planar, dict(shape=(3, 2), samples=3, planar=True, dtype="uint16"))
    for w in (2, 4):
        add(f"Zeiss {w}", h_zeiss, dict(w=w))
    for c in ("size", "diffraction", "resolution"):
        add(f"TVIPS {c}", h_tvips, dict(case=c))
    for t in (33471, 33560):
        add(f"SIS {t}", h_sis, dict(tag=t))
    for m in ("MAG", "DIFF", "STEM"):
        add(f"JEOL {m}", h_jeol, dict(mode=m))
    for u in ("inch", "cm", "none"):
        add(f"resolution {u}", h_force, dict(unit=u))
    for u in ("micron", "nm", None):
        add(f"ImageJ {u}", h_imagej, dict(unit=u, axes="YX"))
        add(f"ImageJ {u} stack", h_imagej, dict(unit=u, axes="ZYX" if u else "TYX"))
    add("DM stack", h_dm, dict(axes="IYX"))
    for k in (None, "uniform", "data", "functional"):
        add(f"streak {k}", h_streak, dict(kind=k))
        add(f"streak {k} focus", h_streak, dict(kind=k, focus=True, lazy=k == "data"))
    return hs
