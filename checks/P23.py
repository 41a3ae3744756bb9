"""Hamamatsu streak camera images (.img)."""
import contextlib

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "texts of the comment come from fixed sets; numbers written there, header fields, pixels and calibration tables are symbolic (finite floats)",
    "the fit of a uniform axis (numpy's polyfit) runs on concrete tables",
]
F = ["rsciio.hamamatsu._api." + n for n in ("file_reader", "IMGReader.parse_file", "IMGReader._set_axis", "IMGReader._get_axes", "IMGReader._reshape_data", "IMGReader._split_sections_from_comment",
                                            "IMGReader._extract_entries_from_section", "IMGReader._map_general_md", "IMGReader._map_signal_md", "IMGReader._map_detector_md", "IMGReader._map_spectrometer_md")]
HEAD = [("offset_x", 8, "h"), ("offset_y", 10, "h"), ("num_images_in_channel", 14, "i"), ("num_additional_channels", 18, "h"), ("channel_number", 20, "h"), ("timestamp", 22, "d")]
KIND = {0: ("bit8", "u1"), 2: ("bit16", "<u2"), 3: ("bit32", "<u4")}
PLAIN = {
    "Application": {"Date": "20/01/2023", "Time": "11:34:55.147", "Software": "HPD-TA"},
    "Acquisition": {"NrExposure": 4, "ExposureTime": "5 s", "AcqMode": 4, "pntBinning": "2,2", "ZAxisLabel": "Intensity", "ZAxisUnit": "Count"},
}


def text(sections, sep="\r\n", bare=()):
    """comment of the sections; strings are quoted unless listed in ``bare``"""
    return sep.join("[%s],%s" % (n, d if isinstance(d, str) else ",".join('%s="%s"' % (k, v) if isinstance(v, str) and k not in bare else "%s=%s" % (k, v) for k, v in d.items())) for n, d in sections.items())


def build(env, w, h, kind, sections, x=None, y=None, xunit="nm", yunit="ns", sep="\r\n", gap=0, bare=()):
    """(cells, header values, pixels); x and y are the cells of calibration tables (None: not calibrated)"""
    npx = w * h * np.dtype(KIND[kind][1]).itemsize

    def scaling(end):
        px = end + npx + gap
        py = px + (len(x) if x is not None else 0)
        return {"ScalingXType": 1 if x is None else 2, "ScalingXScale": 1, "ScalingXUnit": xunit, "ScalingXScalingFile": "Other" if x is None else "#%07d,%04d" % (px, w),
                "ScalingYType": 1 if y is None else 2, "ScalingYScale": 1, "ScalingYUnit": yunit, "ScalingYScalingFile": "Focus mode" if y is None else "#%07d,%04d" % (py, h)}

    n = len(text({**sections, "Scaling": scaling(0)}, sep, bare).encode())
    com = text({**sections, "Scaling": scaling(64 + n)}, sep, bare).encode()
    cells = [0] * 64
    put(cells, 0, b"IM")
    put(cells, 2, env.pack("<hhh", n, w, h))
    put(cells, 12, env.pack("<h", kind))
    v = {}
    for name, o, f in HEAD:
        v[name] = env.float(name) if f == "d" else env.int(name, *((-2**15, 2**15 - 1) if f == "h" else (-2**31, 2**31 - 1)))
        put(cells, o, env.pack("<" + f, v[name]))
    raw = env.bytes("px", npx)
    cells += list(com) + list(raw) + [9] * gap + list(x or []) + list(y or [])
    return cells, v, env.from_cells(raw, KIND[kind][1], (h, w)).astype("i8")


def read(env, cells, name="streak.one.img", **kw):
    from rsciio.hamamatsu import file_reader

    r = file_reader(env.file(name, cells), **kw)
    env.check(len(r) == 1, "one signal")
    return r[0]


def table(env, name, n):
    c = env.bytes(name, 4 * n)
    v = env.from_cells(c, "<f4")
    for e in v:
        env.assume(env.all(e == e, e <= 1e30, e >= -1e30))
    return c, v


def h_image(env, w, h, kind, xcal, ycal, gap=0, lazy=False):
    x, xv = table(env, "x", w) if xcal else (None, None)
    y, yv = table(env, "y", h) if ycal else (None, None)
    if xcal and w > 1:
        env.assume(env.any(env.all(*[p < q for p, q in zip(xv, xv[1:])]), env.all(*[p > q for p, q in zip(xv, xv[1:])])))
    cells, v, px = build(env, w, h, kind, PLAIN, x, y, gap=gap)
    s = read(env, cells, lazy=lazy)
    d = env.nd(s["data"])
    flip = xcal and w > 1 and bool(xv[0] > xv[1])
    if flip:
        px, xv = px[:, ::-1], xv[::-1]
    env.check(env.same_array(d, px), "every pixel at its row and column; columns follow ascending wavelength")
    axes_match(env, s)
    a, b = s["axes"]
    env.check((a["index_in_array"], b["index_in_array"], a["navigate"], b["navigate"]) == (0, 1, False, False), "time then wavelength")
    if xcal:
        env.check((b["name"], b["units"]) == ("Wavelength", "nm") and env.same_array(b["axis"], xv, dtype=False), "wavelengths of the columns")
    else:
        env.check({k: b[k] for k in ("name", "units", "scale", "offset", "size")} == dict(name="Uncalibrated X axis", units="px", scale=1, offset=0, size=w), "pixel columns")
    if ycal:
        env.check((a["name"], a["units"]) == ("Time", "ns") and env.same_array(a["axis"], yv, dtype=False), "times of the rows")
    else:
        env.check({k: a[k] for k in ("name", "units", "scale", "offset", "size")} == dict(name="Vertical CCD Position", units="px", scale=1, offset=0, size=h), "pixel rows")
    o = s["original_metadata"]
    env.check(env.all(*[env.same(o[k], z) for k, z in v.items()]), "header values")
    env.check((o["image_width_px"], o["image_height_lines"], o["file_type"], o["character_im"]) == (w, h, KIND[kind][0], "IM"), "sizes and type")
    env.cover("read")


@contextlib.contextmanager
def fit(env):
    """polyfit of tables the engine holds as cells with known values"""
    import rsciio.hamamatsu._api as m

    old = m.polyfit
    m.polyfit = lambda x, y, deg: [float(c) for c in old(np.array([float(i) for i in x]), np.array([float(i) for i in y]), deg=deg)]
    try:
        yield
    finally:
        m.polyfit = old


def h_uniform(env, w, h, down, yunit):
    t = np.array([10 * i for i in range(w)], "f4") + 300
    u = np.array([0.5 * i for i in range(h)], "f4")
    cells, v, px = build(env, w, h, 2, PLAIN, list((t[::-1] if down else t).tobytes()), list(u.tobytes()), yunit=yunit)
    with fit(env):
        s = read(env, cells, use_uniform_signal_axes=True)
    env.check(env.same_array(env.nd(s["data"]), px[:, ::-1] if down else px), "pixels")
    axes_match(env, s)
    a, b = s["axes"]
    near = lambda p, q: abs(p - q) < 1e-3
    env.check(near(b["offset"], 300) and near(b["scale"], 10) and near(a["offset"], 0) and near(a["scale"], 0.5), "scale and offset of evenly spaced tables")
    env.check((a["units"], b["units"]) == ("µs" if yunit == "us" else yunit, "nm"), "units")
    env.cover("read")


COMMENTS = ["", "plain", "a, b and c", "k=5", "E=5, F=6", "sample [3]", "[x],y=2", "a=b [c=d]"]


def h_comment(env, place, sep):
    """texts of the comment block survive with the characters that also structure it"""
    i = env.choose("comment", list(range(len(COMMENTS))))
    n, g = env.int("NrExposure", 1, 10**6), env.int("PCThreshold", -10**6, 10**6)
    user = {"UserComment": COMMENTS[i]}
    if place == "middle":
        user["Other"] = "last"
    elif place == "number":
        user["Other"] = g
    sec = {"Comment": user, **PLAIN} if place == "first" else {**PLAIN, "Comment": user}
    sec = {k: dict(d) for k, d in sec.items()}
    sec["Acquisition"]["NrExposure"] = n
    sec["Grabber"] = {"Type": 5, "PCThreshold": g}
    sec["Empty"] = ""
    cells, v, px = build(env, 2, 2, 2, sec, sep=sep)
    s = read(env, cells)
    got = s["original_metadata"]["Comment"]
    env.check(set(got) == set(sec) | {"Scaling"}, "every section, no other")
    for k, d in sec.items():
        if isinstance(d, str):
            env.check(got[k] == d, "section of text")
            continue
        env.check(list(got[k]) == list(d), "every entry of the section, no other")
        for e, x in d.items():
            env.check(env.same(env.number(got[k][e]), x * 1.0) if env.is_sym(x) else got[k][e] == str(x), "value of the entry")
    env.check(env.same_array(env.nd(s["data"]), px), "pixels")
    env.cover("read")


DATES = {"20/01/2023": "2023-01-20", "29.08.2018": "2018-08-29", "2023-01-20": "2023-01-20"}
TIMES = {"11:34:55.147": "11:34:55", "11:34:55": "11:34:55"}


def h_metadata(env, what):
    from rsciio.hamamatsu import file_reader  # noqa: F401

    n, e, gain = env.int("n", 1, 1000), env.float("e"), env.float("gain")
    wl, slit, blaze, tr = env.float("wl"), env.float("slit"), env.float("blaze"), env.float("tr")
    groove = env.int("groove", 1, 5000)
    date, time = env.choose("date", list(DATES)) if what == "date" else "29.08.2018", env.choose("time", list(TIMES)) if what == "date" else "11:34:55.147"
    app = {"Date": date, "Time": time}
    unit = env.choose("unit", ["s", "ms"])
    mode, modename = (env.choose("mode", [(1, "live"), (2, "acquire"), (3, "photon_counting"), (4, "analog_integration"), (7, "Unknown"), (0, "Unknown")])) if what == "mode" else (4, "analog_integration")
    flags = {k: (env.choose(k, [-1, 0]) if what == "flags" else 0) for k in ("ShadingCorr", "BacksubCorr", "CurveCorr", "DefectCorrection")}
    acq = {"NrExposure": n, "ExposureTime": f"{e} {unit}", "AcqMode": mode, "pntBinning": "2,4", "ZAxisLabel": "Intensity", "ZAxisUnit": env.choose("zu", ["Count", "V"]) if what == "flags" else "Count", **flags}
    trunit = env.choose("trunit", ["ns", "us", "ps", ""]) if what == "range" else "us"
    streak = {"DeviceName": "C5680", "Time Range": f"{tr} {trunit}".strip(), "MCP Gain": f"{gain}"}
    ruling = env.choose("ruling", [True, False]) if what == "grating" else True
    spec = {"DeviceName": "Andor SG", "Wavelength": f"{wl}", "Grating": f"{groove} g/mm" if ruling else "2", "Blaze": f"{blaze}" if ruling else "0", "Ruling": "300" if ruling else "0", "Side Ent. Slitw.": f"{slit}"}
    sec = {"Application": app, "Acquisition": acq, "Streak camera": streak, "Spectrograph": spec}
    drop = None
    if what == "missing":
        drop = env.choose("drop", [("Acquisition", "NrExposure"), ("Acquisition", "AcqMode"), ("Acquisition", "ExposureTime"), ("Acquisition", "pntBinning"), ("Streak camera", "Time Range"), ("Streak camera", "MCP Gain"),
                                   ("Spectrograph", "Grating"), ("Spectrograph", "Blaze"), ("Application", "Time"), ("Acquisition", "ZAxisUnit"), ("Streak camera", None), ("Spectrograph", None), ("Acquisition", None)])
        if drop[1]:
            del sec[drop[0]][drop[1]]
        else:
            sec[drop[0]] = {"UseDevice": 0}
    gone = lambda a, b: drop in ((a, b), (a, None))
    cells, v, px = build(env, 2, 1, 0, sec, bare=("ExposureTime", "ZAxisLabel", "ZAxisUnit"))
    s = read(env, cells)
    md = s["metadata"]
    g, dt, sp = md["General"], md["Acquisition_instrument"]["Detector"], md["Acquisition_instrument"]["Spectrometer"]
    env.check((g["title"], g["original_filename"]) == ("streak", "streak.one.img"), "title")
    if not gone("Application", "Time"):
        env.check((g["date"], g["time"]) == (DATES[date], TIMES[time]), "date and time")
    if drop != ("Acquisition", "ZAxisUnit") and drop != ("Acquisition", None):
        env.check(md["Signal"]["quantity"] == "Intensity (%s)" % {"Count": "Counts"}.get(acq["ZAxisUnit"], acq["ZAxisUnit"]), "quantity")
    env.check(md["Signal"]["signal_type"] in ("", "LumiTransientSpectrum"), "signal type")
    num = lambda d, k, x, a, b: env.check(k not in d if gone(a, b) else env.same(d[k], x), k)
    num(dt, "frames", n, "Acquisition", "NrExposure")
    if gone("Acquisition", "NrExposure") or gone("Acquisition", "ExposureTime"):
        env.check("integration_time" not in dt, "no integration time without frames and exposure")
    else:
        env.check(env.same(dt["integration_time"], (e if unit == "s" else e / 1000) * n), "integration time in seconds")
    env.check("binning" not in dt if gone("Acquisition", "pntBinning") else dt["binning"] == (2, 4), "binning")
    if drop != ("Acquisition", None):
        env.check(dt["processing"] == {a: flags[b] == -1 for a, b in (("shading_correction", "ShadingCorr"), ("background_correction", "BacksubCorr"), ("curvature_correction", "CurveCorr"), ("defect_correction", "DefectCorrection"))}, "processing")
    num(dt, "mcp_gain", gain, "Streak camera", "MCP Gain")
    env.check(dt["detector_type"] == "StreakCamera" and dt.get("model") == (None if drop == ("Streak camera", None) else "C5680"), "kind and model of the detector")
    num(dt, "time_range", tr, "Streak camera", "Time Range")
    if not gone("Streak camera", "Time Range"):
        env.check(dt.get("time_range_units", "") == {"us": "µs"}.get(trunit, trunit), "units of the time range")
    env.check(dt["acquisition_mode"] == ("Unknown" if gone("Acquisition", "AcqMode") else modename), "acquisition mode")
    if drop != ("Spectrograph", None):
        env.check(env.all(env.same(sp["entrance_slit_width"], slit), env.same(sp["central_wavelength"], wl)) and sp["model"] == "Andor SG", "spectrometer")
        if ruling:
            num(sp["Grating"], "blazing_wavelength", blaze, "Spectrograph", "Blaze")
            num(sp["Grating"], "groove_density", groove * 1.0, "Spectrograph", "Grating")
        else:
            env.check("Grating" not in sp, "no grating data without ruling")
    env.cover("read")


def harnesses(tier):
    hs = []
    add = lambda name, f, p: hs.append(H(name, f, p, 90, F, "every pixel, table entry and number of the comment", ["read"]))
    for kind in KIND:
        for x in (False, True):
            for y in (False, True):
                add(f"image {kind} {x} {y}", h_image, dict(w=3, h=2, kind=kind, xcal=x, ycal=y))
    for w, h in ((1, 3), (3, 1), (2, 2), (1, 1), (4, 3), (2, 5)):
        add(f"image {w}x{h}", h_image, dict(w=w, h=h, kind=2, xcal=True, ycal=True, gap=6))
    add("image lazy", h_image, dict(w=3, h=2, kind=2, xcal=True, ycal=True, lazy=True))
    for down in (False, True):
        for yunit in ("ns", "us"):
            add(f"uniform {down} {yunit}", h_uniform, dict(w=4, h=3, down=down, yunit=yunit))
    for place in ("first", "last", "middle", "number"):
        for sep in ("\r\n", ""):
            add(f"comment {place} {len(sep)}", h_comment, dict(place=place, sep=sep))
    for what in ("date", "mode", "flags", "range", "grating", "missing"):
        add(f"metadata {what}", h_metadata, dict(what=what))
    return hs
