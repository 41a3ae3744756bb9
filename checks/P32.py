"""TriVista: spectra, series, line scans and maps of .tvf files."""
import xml.etree.ElementTree as ET

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "files composed by the check, parsed by the real XML library; counts symbolic (written as text with the full precision), calibrations and settings chosen from lists",
]
F = ["rsciio.trivista._api." + n for n in ("file_reader", "TrivistaTVFReader.parse_file_structure", "TrivistaTVFReader._get_signal_axis", "TrivistaTVFReader._get_time_axis", "TrivistaTVFReader._get_nav_axis", "TrivistaTVFReader.set_axes", "TrivistaTVFReader._parse_data", "TrivistaTVFReader._load_glued_data_stack", "TrivistaTVFReader.get_data_and_signal", "TrivistaTVFReader.reshape_data", "TrivistaTVFReader.map_metadata", "TrivistaTVFReader._filter_laser_metadata", "TrivistaTVFReader._filter_detector_metadata", "TrivistaTVFReader._filter_objectives_metadata", "TrivistaTVFReader._filter_spectrometers_metadata", "_process_info_serialized")] + ["rsciio.utils.xml.XmlToDict.dictionarize"]


def node(parent, tag, text=None, **attrib):
    e = ET.SubElement(parent, tag, {k: str(v) for k, v in attrib.items()})
    if text is not None:
        e.text = text
    return e


def info(groups):
    r = ET.Element("Info")
    g = node(r, "Groups")
    for name, items in groups:
        e = node(g, "Group")
        node(e, "Name", name)
        its = node(e, "Items")
        gs = node(e, "Groups")
        if items and isinstance(items[0][1], list):
            for n2, it2 in items:
                e2 = node(gs, "Group")
                node(e2, "Name", n2)
                i2 = node(e2, "Items")
                for k, v in it2:
                    i = node(i2, "Item")
                    node(i, "Name", k)
                    node(i, "Value", str(v))
                node(e2, "Groups")
                node(e2, "IsVisible", "true")
        else:
            for k, v in items:
                i = node(its, "Item")
                node(i, "Name", k)
                node(i, "Value", str(v))
        node(e, "IsVisible", "true")
    return '<?xml version="1.0"?>' + ET.tostring(r, "unicode")


def spectrum(parent, axis_values, frames, times, unit="Nanometer"):
    x = node(parent, "xDim", Length=len(axis_values))
    node(x, "Calibration", Unit=unit, ValueArray="|".join([str(len(axis_values))] + [repr(float(v)) for v in axis_values]))
    d = node(parent, "Data", DataType="Double")
    for f, t in zip(frames, times):
        node(d, "Frame", ";".join(f"{v}" for v in f), xDim=len(f), yDim=1, TimeStamp=t)


T0 = 636107505792305679


def write(env, n, nav, counts, wl, unit="Nanometer", glued=None, series=False, lasers=2, detectors=2, spectrometers=1, hw=3, objectives=2, enabled=True, microscopes=2, avg=False, laser=785.0, dt=4.0, acc=2, extra=()):
    root = ET.Element("XmlMain", {"Version": "1.0.1", "Filename": "x.tvf", "FileInfoSerialized": info([("File", [("Comment", "text")])])})
    h = node(root, "Hardware", Version=2)
    sp = node(h, "Spectrometers", Count=hw)
    for i in range(hw):
        s = node(sp, "Spectrometer", Model=f"SP-{i}", Serialnumber=100 + i)
        g = node(s, "Gratings")
        for j in range(3 if hw > 1 else 1):
            node(g, "Grating", GrooveDensity=f"{300 * (j + 1)} g/mm", Blaze=["H-VIS", "550NM", "750NM"][j if hw > 1 else 1])
    d = node(h, "Detectors", Count=detectors)
    for i in range(detectors):
        node(d, "Detector", Name=f"Camera{i}", SerialNumber=f"s{i}")
    l = node(h, "LightSources", Count=lasers)
    for i in range(lasers):
        node(node(l, "LightSource", Name=f"L{i}"), "Wavelengths", Count=1, Value_0=["0.000", "785.000", "532.000"][i if lasers > 1 else 1])
    m = node(h, "Microscopes", Count=microscopes)
    for i in range(microscopes):
        o = node(node(m, "Microscope", Name=f"M{i}"), "Objectives", Count=objectives)
        for j in range(objectives):
            node(o, "Objective", IsEnabled=enabled and i == microscopes - 1 and j == objectives - 1, Name=f"{i}{j}", Magnification=[100.0, 50.0][j])
    frames = prod(nav) if nav and not series else (len(counts) if series else 1)
    groups = [("Detector", [("Name", "Camera0" if detectors == 1 else "Camera1"), ("Detector_Temperature", -70.5), ("No_of_Accumulations", acc), ("Calc_Average", avg), ("Exposure_Time_(ms)", 1500), ("No_of_Frames", frames)])]
    groups.append(("Calibration", [("Center_Wavelength", 900.25), ("Laser_Wavelength", laser)]))
    groups.append(("Experiment", [("Mode", "x")] + ([("Overlap (%)", 12)] if glued else [])))
    for name, a in (extra or ()):
        groups.append((name + "-Axis", [("From", a[0]), ("To", 0), ("Step", a[1]), ("Points", a[2])]))
    if spectrometers == 1:
        groups.append(("Spectrometers", [("Spectrometer", spec(hw - 1, hw))]))
    else:
        groups.append(("Spectrometers", [(f"Spectrometer{i + 1}", spec(i, hw)) for i in range(2)]))
    docs = node(root, "Documents", Count=1)
    doc = node(docs, "Document", Version=2, Label="Intensity", DataLabel="Counts", RecordTime="09/29/2016 12:57:45.518", InfoSerialized=info(groups))
    spectrum(doc, wl, counts, [T0 + int(i * dt * 1e7) for i in range(len(counts))], unit)
    c = node(doc, "Childs", Count=len(glued or []))
    for k, (w2, c2) in enumerate(glued or []):
        spectrum(node(c, "Child"), w2, c2, [T0 + k], unit)
    with open(env.path("a.tvf"), "w", encoding="utf-8") as f:
        f.write('<?xml version="1.0" encoding="utf-8"?>' + ET.tostring(root, "unicode"))


def spec(i, hw):
    return [("Model", f"SP-{i}"), ("Serialnumber", 100 + i), ("Groove_Density", "600 g/mm" if hw > 1 else "300 g/mm"), ("Slit_Entrance-Front", 200 + i), ("Slit_Entrance-Side", 0), ("Slit_Exit-Front", 0), ("Slit_Exit-Side", 500)]


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(b))


def check_signal_axis(env, a, wl, uniform, units):
    env.check(a["name"] == "Wavelength" and a["units"] == units and a["navigate"] is False, "signal axis")
    if uniform and len(wl) > 1:
        n = len(wl)
        m = (n - 1) / 2
        sl = sum((i - m) * v for i, v in enumerate(wl)) / sum((i - m) ** 2 for i in range(n))
        env.check(a["size"] == n and near(a["scale"], sl, 1e-8) and near(a["offset"], sum(wl) / n - sl * m, 1e-8), "fit of the signal axis")
    else:
        env.check([float(v) for v in a["axis"]] == [float(v) for v in wl], "values of the signal axis")


def values(env, n, m):
    """counts: m frames of n channels"""
    return [[env.float(f"c{i}_{j}") for j in range(n)] for i in range(m)]


def h_read(env, n=3, nav=(), names="", series=0, uniform=False, unit="Nanometer", filt=True, glued=0, stack=False, **kw):
    from rsciio.trivista import file_reader

    frames = series or prod(nav) if (nav or series) else 1
    c = values(env, n, frames)
    wl = env.choose("wl", [[891.5, 892.25, 893.5, 894.0][:n], [5.0, 4.0, 2.5, 1.0][:n]])
    g = [([w * (k + 1) for w in wl], values_named(env, f"g{k}", n)) for k in range(glued)] or None
    of, st = env.choose("of", [-0.5, 10.0]), env.choose("st", [0.25, -2.0])
    ax = [(nm, (of * (i + 1), st + i, nav[i])) for i, nm in enumerate(names)]
    dt = env.choose("dt", [4.0, 0.5])
    laser = env.choose("laser", [785.0, 0.0, 632.8])
    avg = env.choose("avg", [True, False])
    write(env, n, nav, c, wl, unit, g, bool(series), extra=ax[::-1], dt=dt, laser=laser, avg=avg, **kw)
    out = file_reader(env.path("a.tvf"), use_uniform_signal_axis=uniform, glued_data_as_stack=stack, filter_original_metadata=filt)
    if stack and glued:
        env.check(len(out) == glued, "every window")
        for o, (w2, c2) in zip(out, g):
            env.check([float(v) for v in [o["data"].ndim, o["data"].shape[0]]] == [1, n], "shape of the window")
            env.check(env.all([env.same(x, y) for x, y in zip(list(o["data"]), c2[0])]), "counts of the window")
            env.check([x["index_in_array"] for x in o["axes"]] == [0], "index of the axis")
            check_signal_axis(env, o["axes"][-1], w2, uniform, "nm")
    else:
        env.check(len(out) == 1, "one signal")
        o = out[0]
        shape = tuple(nav) + ((series,) if series else ()) + (n,)
        env.check(tuple(o["data"].shape) == shape, "shape")
        flat = list(o["data"].reshape(-1))
        env.check(env.all([env.same(x, y) for x, y in zip(flat, [v for f in c for v in f])]), "every count")
        a = o["axes"]
        env.check([x["index_in_array"] for x in a] == list(range(len(shape))), "index of the axes")
        for x, (nm, (o_, s_, k)) in zip(a, ax):
            env.check(x["name"] == nm and x["units"] == "µm" and x["navigate"] is True and x["size"] == k and x["offset"] == o_ and x["scale"] == s_, "axis of the stage")
        if series:
            env.check(a[0]["name"] == "time" and a[0]["units"] == "s" and a[0]["size"] == series and a[0]["offset"] == 0 and near(a[0]["scale"], dt), "time axis")
        check_signal_axis(env, a[-1], wl, uniform, "nm" if unit == "Nanometer" else unit)
    for o in out:
        metadata(env, o, laser, avg, glued, filt, **kw)
    env.cover("read")


def values_named(env, name, n):
    return [[env.float(f"{name}_{j}") for j in range(n)]]


def metadata(env, o, laser, avg, glued, filt, lasers=2, detectors=2, spectrometers=1, hw=3, objectives=2, enabled=True, microscopes=2, acc=2):
    g, s, q = o["metadata"]["General"], o["metadata"]["Signal"], o["metadata"]["Acquisition_instrument"]
    env.check(g["title"] == "a" and g["original_filename"] == "a.tvf" and g["date"] == "2016-09-29" and g["time"] == "12:57:45" and s["quantity"] == "Intensity (Counts)", "general metadata")
    d = q["Detector"]
    env.check(d["temperature"] == -70.5 and d["frames"] == acc and d["exposure_per_frame"] == 1.5 and d["integration_time"] == (1.5 if avg else 1.5 * acc) and d["processing"]["calc_average"] is avg, "detector")
    env.check(d["glued_spectrum"] is bool(glued) and d.get("glued_spectrum_windows") == (glued or None) and d.get("glued_spectrum_overlap") == (12.0 if glued else None), "windows")
    env.check(q["Laser"].get("wavelength") == (laser or None), "laser")
    env.check(q["Laser"].get("objective_magnification") == ([100.0, 50.0][objectives - 1] if enabled else None), "objective")
    names = ["Spectrometer"] if spectrometers == 1 else ["Spectrometer1", "Spectrometer2"]
    for i, k in enumerate(names):
        i = hw - 1 if spectrometers == 1 else i
        p = q[k]
        env.check(p["central_wavelength"] == 900.25 and p["model"] == f"SP-{i}" and p["Grating"]["groove_density"] == (600.0 if hw > 1 else 300.0) and p["Grating"]["blazing_wavelength"] == 550.0, "spectrometer")
        env.check(near(p["entrance_slit_width"], (200 + i) / 1000) and near(p["exit_slit_width"], 0.5), "slits")
    h = o["original_metadata"]["Hardware"]
    if filt:
        env.check(h["Detectors"]["Detector"]["Name"] == ("Camera0" if detectors == 1 else "Camera1"), "detector in use")
        if laser == 785.0:
            env.check(h["LightSources"]["LightSource"]["Name"] == ("L0" if lasers == 1 else "L1"), "laser in use")
        if enabled:
            env.check(h["Microscopes"]["Microscope"]["Objectives"]["Objective"]["Name"] == f"{microscopes - 1}{objectives - 1}" or str(h["Microscopes"]["Microscope"]["Objectives"]["Objective"]["Name"]) == str(int(f"{microscopes - 1}{objectives - 1}")), "objective in use")
        for i, k in enumerate(names):
            i = hw - 1 if spectrometers == 1 else i
            env.check(h["Spectrometers"][k]["Serialnumber"] == 100 + i and h["Spectrometers"][k]["Gratings"]["Grating"]["GrooveDensity"] == ("600 g/mm" if hw > 1 else "300 g/mm"), "spectrometers in use")
        env.check(o["original_metadata"]["Document"]["InfoSerialized"]["Detector"]["Exposure_Time_(ms)"] == 1500, "settings")
    else:
        for tag, one, k in (("Detectors", "Detector", detectors), ("LightSources", "LightSource", lasers), ("Spectrometers", "Spectrometer", hw), ("Microscopes", "Microscope", microscopes)):
            x = h[tag][one]
            env.check(len(x if isinstance(x, list) else [x]) == k, "complete hardware")
        env.check("Info" in o["original_metadata"]["Document"]["InfoSerialized"], "settings as stored")
    env.check(o["original_metadata"]["XmlMain"]["FileInfoSerialized"]["Info"]["Groups"]["Group"]["Items"]["Item"]["Value"] == "text", "information on the file")


def h_lazy(env):
    from rsciio.trivista import file_reader

    r, e = env.attempt(lambda: file_reader(env.path("a.tvf"), lazy=True))
    env.check(isinstance(e, NotImplementedError), "refused")
    env.cover("read")


def harnesses(tier):
    hs = []

    def add(name, **kw):
        hs.append(H(name, h_read, kw, budget=60, functions=F, bounds="up to 3 x 2 spectra of 4 channels", covers=["read"]))

    for uniform in (False, True):
        z = " uniform" if uniform else ""
        add(f"spectrum{z}", uniform=uniform)
        add(f"map{z}", nav=(2, 3), names="YX", uniform=uniform)
        add(f"series{z}", series=3, uniform=uniform)
        add(f"windows as stack{z}", glued=2, stack=True, uniform=uniform)
        add(f"channel{z}", n=1, uniform=uniform)
    add("map 3 x 2", nav=(3, 2), names="YX", n=2)
    add("line X", nav=(3,), names="X", n=4)
    add("line Y", nav=(2,), names="Y")
    add("series of 2", series=2, n=2)
    add("unit", unit="eV")
    add("windows", glued=2)
    add("stack without windows", stack=True)
    add("unfiltered", filt=False)
    add("unfiltered map", filt=False, nav=(2, 2), names="YX")
    add("one laser", lasers=1)
    add("one detector", detectors=1)
    add("one spectrometer", hw=1)
    add("one objective", objectives=1)
    add("one microscope", microscopes=1)
    add("no objective enabled", enabled=False)
    add("several spectrometers", spectrometers=2)
    add("several spectrometers map", spectrometers=2, nav=(2, 2), names="YX", hw=2)
    hs.append(H("lazy", h_lazy, {}, budget=20, functions=F, bounds="-", covers=["read"]))
    return hs
