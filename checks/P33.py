"""Jobin-Yvon (LabSpec): spectra, line scans and maps of .xml files."""
import xml.etree.ElementTree as ET

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "files composed by the check, parsed by the real XML library; counts symbolic (written as text with the full precision), axes and settings chosen from lists",
]
R = "rsciio.jobinyvon._api.JobinYvonXMLReader."
F = ["rsciio.jobinyvon._api.file_reader"] + [R + n for n in ("parse_file", "_get_metadata_values", "_clean_up_metadata", "get_original_metadata", "_set_signal_type", "_set_nav_axis", "_set_signal_axis", "_sort_nav_axes", "get_axes", "get_data", "map_metadata")]

KEY, V1, V2 = "0x6D6D616E", "0x7D6C61DB", "0x8736F70"
NAME, UNITS, VALUES = "0x6D707974", "0x7C696E75", "0x7D6CD4DB"

# name, first value, second value, where it goes, what is there
ENTRIES = [
    ("Acq. time (s)", "1.5", None, "Detector.exposure_per_frame", 1.5),
    ("Accumulations", "4", None, "Detector.frames", 4.0),
    ("Autofocus", "Off", None, "Detector.processing.autofocus", "Off"),
    ("SWIFT", "On", None, "Detector.processing.swift", "On"),
    ("AutoExposure", "Off", None, "Detector.processing.auto_exposure", "Off"),
    ("Spike filter", "Multiple accum.", None, "Detector.processing.spike_filter", "Multiple accum."),
    ("Delay time (s)", "2", None, "Detector.delay_time", 2.0),
    ("Binning", "30", None, "Detector.binning", 30.0),
    ("Readout mode", "Signal", None, None, None),
    ("DeNoise", "A", None, "Detector.processing.de_noise", "A"),
    ("ICS correction", "B", None, "Detector.processing.ics_correction", "B"),
    ("Dark correction", "C", None, "Detector.processing.dark_correction", "C"),
    ("Inst. Process", "D", None, "Detector.processing.inst_process", "D"),
    ("Detector temperature (°C)", "-118.94", None, "Detector.temperature", -118.94),
    ("Instrument", "LabRAM HR", "-825338570", "Spectrometer.model", "LabRAM HR"),
    ("Detector", "Symphony", "2037017759", "Detector.model", "Symphony"),
    ("Objective", "x100", "100", "Laser.objective_magnification", 100.0),
    ("Grating", "1800 gr/mm", "1800", "Spectrometer.Grating.groove_density", 1800.0),
    ("ND Filter", "10%", "10", "Laser.Filter.optical_density", 0.1),
    ("Laser (nm)", "633 ", "632.817", "Laser.wavelength", 632.817),
    ("Spectro (nm)", "530.0", "530.5", "Spectrometer.central_wavelength", 530.5),
    ("Hole", "125", "126", "Spectrometer.entrance_slit_width", 1.25),
    ("Range", "Visible", "1", "Spectrometer.spectral_range", "Visible"),
    ("Laser. Pol.", "L/2", "0", "Laser.Polarizer.polarizer_type", "L/2"),
    ("Raman. Pol.", "No", "3", "Spectrometer.Polarizer.polarizer_type", "No"),
    ("Laser Pol. (°)", "45", "46", "Laser.Polarizer.angle", 45.0),
    ("Raman Pol. (°)", "90", "91", "Spectrometer.Polarizer.angle", 90.0),
    ("Windows", "3", None, "Detector.glued_spectrum_windows", 3.0),
]


def node(parent, ID, text=None, tag="LSX"):
    e = ET.SubElement(parent, tag, {"Format": "9", "ID": ID})
    if text is not None:
        e.text = text
    return e


def seq(v):
    return "\n\t" + " ".join(str(x) for x in v) + " \n\t"


def write(env, rows, sig, navs, units, missing=(), empty=(), angle=None, title="ttl", quantity=("Intens", "Cnt"), order=False, hollow=False):
    root = ET.Element("LSX_Data")
    t = node(root, "0x69746164", tag="LSX_Tree")
    blocks = []
    if "type" not in missing:
        node(t, NAME, "SpIm")
    if "title" not in missing:
        node(t, "0x6C7469D9", title)
    if angle is not None:
        g = node(t, "0x6C676EC6")
        node(g, "0x0", str(angle))
        node(g, "0x1", "77")

    def axes():
        ax = node(node(t, "0x7A74D9D6"), "0x7B697861")
        e = node(ax, "0x0")
        if "quantity" not in missing:
            node(e, NAME, quantity[0])
            node(e, UNITS, quantity[1])
        e = node(ax, "0x1")
        node(e, VALUES, seq(sig))
        node(e, NAME, "Spectr")
        node(e, UNITS, units)
        for i, (name, values) in enumerate(navs):
            e = node(ax, f"0x{i + 2}")
            if order:
                node(e, NAME, name)
            node(e, VALUES, seq(values))
            if not order:
                node(e, NAME, name)
            node(e, UNITS, "µm")

    def meta():
        m = node(t, "0x6C62D4D9")
        s = node(m, "0x8716361")
        for name, a, b, _, _ in ENTRIES:
            if name in missing:
                continue
            e = node(s, "0x1234")
            if order:
                node(e, KEY, name)
            if name not in empty or hollow:
                node(e, V1, None if name in empty else a)
            if not order:
                node(e, KEY, name)
            if b is not None and (name not in empty or hollow):
                node(e, V2, None if name in empty else b)
        d = node(m, "0x7CECDBD7")
        if "date" not in missing:
            e = node(d, "0x1")
            node(e, KEY, "Acquired")
            node(e, V1, "27.06.2022 16:26:24")
        f = node(m, "0x7C73E2D2")
        for k, v in (("Sample", "a sample"), ("Remark", "a remark"), ("Site", None)):
            e = node(f, "0x1")
            node(e, KEY, k)
            node(e, V1, v)

    (meta if order else axes)()
    (axes if order else meta)()
    mat = node(root, "0x0", tag="LSX_Matrix")
    for r in rows:
        e = node(mat, "0x0", seq(r), tag="LSX_Row")
        e.attrib["Size"] = str(len(r))
    with open(env.path("a.xml"), "w", encoding="utf-8") as f:
        f.write('<?xml version="1.0" encoding="UTF-8"?>\n' + ET.tostring(root, "unicode"))


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(b))


AXES = {"nm": ("Wavelength", "nm"), "eV": ("Energy", "eV"), "meV": ("Energy", "meV"), "1/cm": ("Raman Shift", "1/cm"), "1/cm abs": ("Wavenumber", "1/cm"), "µm": ("Wavelength", "µm")}


def h_read(env, n=3, nx=None, ny=None, names="XY", units="nm", uniform=False, missing=(), empty=(), quantity=("Intens", "Cnt"), angle=None, order=False):
    from rsciio.jobinyvon import file_reader

    frames = (nx or 1) * (ny or 1)
    hollow = env.choose("hollow", [True, False]) if empty else False
    c = [[env.float(f"c{i}_{j}") for j in range(n)] for i in range(frames)]
    sig = env.choose("sig", [[530.0, 531.5, 532.75, 534.0][:n], [534.0, 532.25, 531.0, 529.5][:n], [-3.5, -1.0, 2.0, 7.0][:n]])
    of, st = env.choose("nav", [(-0.5, 0.25), (10.0, -2.0)])
    navs = []
    for i, (name, k) in enumerate(zip(names, (nx, ny))):
        if k is not None:
            navs.append((name, [of * (i + 1) + (st + i) * j for j in range(k)]))
    write(env, c, sig, navs, units, missing, empty, angle, quantity=quantity, order=order, hollow=hollow)
    out = file_reader(env.path("a.xml"), use_uniform_signal_axis=uniform)
    env.check(len(out) == 1, "one signal")
    o = out[0]
    nav = [(nm, v) for nm, v in reversed(navs) if len(v) > 1]
    shape = tuple(len(v) for _, v in nav) + (n,)
    env.check(tuple(o["data"].shape) == shape, "shape")
    back = n > 1 and sig[0] > sig[1]
    flat = list(o["data"].reshape(-1))
    want = [v for f in c for v in (f[::-1] if back else f)]
    env.check(env.all([env.same(x, y) for x, y in zip(flat, want)]), "every count at its channel and position")
    a = o["axes"]
    env.check(len(a) == len(shape) and [x["index_in_array"] for x in a] == list(range(len(shape))), "index of the axes")
    for x, (nm, v) in zip(a, nav):
        env.check(x["name"] == nm and x["units"] == "µm" and x["navigate"] is True and x["size"] == len(v) and x["offset"] == v[0] and near(x["scale"], v[1] - v[0]), "axis of the stage")
    x = a[-1]
    wl = sig[::-1] if back else sig
    env.check((x["name"], x["units"]) == AXES[units] and x["navigate"] is False, "signal axis")
    if uniform and n > 1:
        m = (n - 1) / 2
        sl = sum((i - m) * v for i, v in enumerate(wl)) / sum((i - m) ** 2 for i in range(n))
        env.check(x["size"] == n and near(x["scale"], sl, 1e-8) and near(x["offset"], sum(wl) / n - sl * m, 1e-8), "fit of the signal axis")
    else:
        env.check([float(v) for v in x["axis"]] == [float(v) for v in wl], "values of the signal axis")
    metadata(env, o, missing, empty, quantity, angle)
    env.cover("read")


def metadata(env, o, missing, empty, quantity, angle):
    md = o["metadata"]
    g, s, q = md["General"], md["Signal"], md["Acquisition_instrument"]
    env.check(g.get("title") == (None if "title" in missing else "ttl") and g["original_filename"] == "a.xml" and g["notes"] == "a remark" and md["Sample"]["description"] == "a sample", "general metadata")
    d = ("27.06.2022", "16:26:24")
    env.check((g.get("date"), g.get("time")) == ((None, None) if "date" in missing else d), "date")
    words = {"Intens": "Intensity", "Cnt": "Counts", "Cnt/sec": "Counts/s"}
    want = None if "quantity" in missing else f"{words.get(quantity[0], quantity[0])} ({words.get(quantity[1], quantity[1])})"
    env.check(s.get("quantity") == want and s["signal_dimension"] == 1, "quantity")
    gone = set(missing) | set(empty)
    for name, _, _, where, value in ENTRIES:
        if where is None:
            continue
        x = dget(q, where)
        if name in gone:
            env.check(x is None or x == {}, "nothing invented for settings not stored")
        else:
            env.check(near(x, value) if isinstance(value, float) and isinstance(x, (int, float)) else x == value, f"{name}")
    env.check(dget(q, "Spectrometer.pinhole") == dget(q, "Spectrometer.entrance_slit_width") or "Hole" in gone, "pinhole")
    if not gone & {"Acq. time (s)", "Accumulations"}:
        env.check(dget(q, "Detector.integration_time") == 6.0, "integration time")
    else:
        env.check(dget(q, "Detector.integration_time") is None, "no integration time")
    env.check(dget(q, "Detector.glued_spectrum") is ("Windows" not in gone), "glued")
    r = dget(q, "Spectral_image.rotation_angle")
    env.check(r is None if angle is None else near(r, angle * 57.29577951308232), "rotation")
    om = o["original_metadata"]["experimental_setup"]
    for name, a, b, _, value in ENTRIES:
        if name in missing or name in empty or isinstance(value, float):
            continue
        env.check(om.get(name) == a, "settings as stored")


def h_lazy(env):
    from rsciio.jobinyvon import file_reader

    r, e = env.attempt(lambda: file_reader(env.path("a.xml"), lazy=True))
    env.check(isinstance(e, NotImplementedError), "refused")
    env.cover("read")


def harnesses(tier):
    hs = []

    def add(name, **kw):
        hs.append(H(name, h_read, kw, budget=60, functions=F, bounds="up to 3 x 2 spectra of 4 channels", covers=["read"]))

    for uniform in (False, True):
        z = " uniform" if uniform else ""
        add(f"spectrum{z}", uniform=uniform)
        add(f"map{z}", nx=3, ny=2, uniform=uniform, n=2)
        add(f"line{z}", nx=3, ny=1, uniform=uniform)
        add(f"channel{z}", n=1, uniform=uniform)
        add(f"map of one channel{z}", n=1, uniform=uniform, nx=2, ny=2)
    add("map 2 x 3", nx=2, ny=3, n=4)
    add("map 2 x 2, other order", nx=2, ny=2, n=3, order=True)
    add("map Y, X", nx=2, ny=3, names="YX")
    add("line Y", nx=3, ny=1, names="YX")
    add("line second axis", nx=1, ny=3)
    add("line of one axis", nx=3)
    add("line of two", nx=2, n=2)
    add("one position", nx=1, ny=1)
    for u in AXES:
        add(f"unit {u}", units=u, n=2)
    add("per second", quantity=("Intens", "Cnt/sec"))
    add("other quantity", quantity=("Ref", "%"))
    add("rotated", nx=2, ny=2, angle=0.5)
    add("not rotated", nx=2, ny=2, angle=0)
    add("other order", order=True, angle=-1.5)
    for e in ENTRIES:
        add(f"without {e[0]}", missing=(e[0],), n=2)
    for m in ("title", "date", "quantity", "type"):
        add(f"without {m}", missing=(m,), n=2)
    for e in ENTRIES:
        add(f"empty {e[0]}", empty=(e[0],), n=2)
    hs.append(H("lazy", h_lazy, {}, budget=20, functions=F, bounds="-", covers=["read"]))
    return hs
