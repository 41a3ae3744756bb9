"""EMSA/MAS (.msa) spectra."""
from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "number formatting that keeps 17 digits or the shortest repr is exact; a format with fewer digits is modelled as an arbitrary number",
    "titles, comments, labels and units from fixed sets; ISO date and time concrete",
]
TEM = {"beam_energy": "BEAMKV", "beam_current": "PROBECUR", "convergence_angle": "CONVANGLE"}


TYPES = {"": ("", ""), "EELS": ("EELS", "ELS"), "CL": ("CL", "CLS"), "CL_SEM": ("CL", "CLS"), "EDS_TEM": ("EDS_SEM", "EDS"), "EDS_SEM": ("EDS_SEM", "EDS")}
TYPES.update({k: ("", k) for k in ("WDS", "AES", "PES", "XRF", "GAM")}, other=("", ""))


def unmapped(env, md, mic, det):
    v = {k: env.float("v_" + k) for k in ("beam_energy", "beam_current", "convergence_angle", "thickness", "tilt", "a", "b", "c")}
    d = {"EELS": {"EELS": {"exposure": v["a"], "dwell_time": v["b"], "collection_angle": v["c"]}},
         "EDS": {"EDS": {"live_time": v["a"], "real_time": v["b"], "elevation_angle": v["c"]}}}[det]
    md["Acquisition_instrument"] = {mic: {"beam_energy": v["beam_energy"], "beam_current": v["beam_current"], "convergence_angle": v["convergence_angle"],
                                          "Stage": {"tilt_alpha": v["tilt"]}, "Detector": d}}
    md["Sample"] = {"thickness": v["thickness"]}
    return v


def roundtrip(env, n, dtype, fmt, st, title="a spectrum", separator=", ", extra=None, date=True, instr=None):
    from rsciio.msa import file_reader, file_writer

    isint = np.dtype(dtype).kind in "iu"
    data = env.array("d", (n,), dtype, *((-2 ** 53, 2 ** 53) if np.dtype(dtype) == np.dtype("int64") else ()))
    ax = axis("Energy loss", n, False, 0, env.float("scale"), env.float("offset"), "eV")
    md = {"General": {"title": title}, "Signal": {"signal_type": st}, "Sample": {"note v1.2": {"no": 3}}}
    if date:
        md["General"].update(date="2014-02-03", time="04:05:00")
    v = unmapped(env, md, *instr) if instr else {}
    om = dict(extra or {})
    om0 = dict(om)
    sg = dict(data=data, axes=[ax], metadata=md, original_metadata=om)
    fn = env.path("a.msa")
    file_writer(fn, sg, format=fmt, separator=separator)
    env.check(om == om0, "the caller's original metadata are untouched")
    s = file_reader(fn)[0]
    r = s["data"]
    env.check(tuple(r.shape) == (n,), "number of channels")
    env.check(env.all(*[x == y if isint else env.any(x == y, env.all(x != x, y != y)) for x, y in zip(r, data)]), "every value survives")
    axes_match(env, s)
    a = s["axes"][0]
    env.check(env.all(env.same(a["scale"], ax["scale"]), env.same(a["offset"], ax["offset"])), "scale and offset survive")
    env.check((a["name"], a["units"]) == ("Energy loss", "eV"), "label and units survive")
    g = s["metadata"]["General"]
    env.check((dget(g, "title") or "") == title, "title survives")
    if date:
        env.check(dget(g, "date") == "2014-02-03", "date survives")
        env.check(dget(g, "time") == "04:05:00", "time survives (to the minute)")
    if not (instr and "EDS" in st):
        env.check(s["metadata"]["Signal"]["signal_type"] == TYPES[st][0], "signal type survives")
    env.check((s["original_metadata"]["SIGNALTYPE"] or "") == TYPES[st][1], "SIGNALTYPE holds the code of the signal type")
    rows = bytes(env.read_file(fn)).decode("latin-1").split("\r\n")
    head = [r for r in rows if r.startswith("#")]
    env.check(all(len(r[15:]) <= 64 for r in head if r.startswith(("#TITLE", "#COMMENT"))), "title and comment lines hold at most 64 characters")
    keys = [r[1:13].strip() for r in head]
    env.check(keys[:3] == ["FORMAT", "VERSION", keys[2]] and keys[-2:] == ["SPECTRUM", "ENDOFDATA"] and
              {"TITLE", "DATE", "TIME", "OWNER", "NPOINTS", "NCOLUMNS", "XUNITS", "DATATYPE", "XPERCHAN", "OFFSET"} <= set(keys), "the keywords the format requires are there, in place")
    env.check(env.all(s["original_metadata"]["NPOINTS"] == n, s["original_metadata"]["NCOLUMNS"] == 1), "numbers of points and columns")
    if (fmt or om.get("DATATYPE", "Y")) == "XY":
        xs = [r.split(separator.strip() or None)[0].strip() for r in rows if r and not r.startswith("#")]
        env.check(env.all(*[env.same(env.number(x), ax["offset"] + ax["scale"] * np.float64(i)) for i, x in enumerate(xs)], len(xs) == n), "the first column is the position of the channel")
    for k, w in (extra or {}).items():
        if k not in ("FORMAT", "VERSION", "DATATYPE", "NPOINTS", "OFFSET", "XPERCHAN", "XLABEL", "XUNITS", "BEAMKV", "PROBECUR", "THICKNESS", "XTILTSTGE", "COLLANGLE", "LIVETIME"):
            env.check(s["original_metadata"][k] == w, "keywords of the original metadata survive")
    if instr:
        env.check(not instr[0] == "TEM" or "TEM" in s["metadata"]["Acquisition_instrument"], "the microscope kind of a TEM signal survives")
        for mic in ("TEM", "SEM"):
            t = s["metadata"]["Acquisition_instrument"].get(mic)
            if t is None:
                continue
            D = t["Detector"][instr[1]]
            got = dict(beam_energy=t["beam_energy"], beam_current=t["beam_current"], convergence_angle=t["convergence_angle"], tilt=t["Stage"]["tilt_alpha"], thickness=s["metadata"]["Sample"]["thickness"])
            got.update(zip("abc", (D["exposure"], D["dwell_time"], D["collection_angle"]) if instr[1] == "EELS" else (D["live_time"], D["real_time"], D["elevation_angle"])))
            env.check(env.all(*[env.same(got[k], v[k]) for k in v]), "acquisition parameters survive")
    env.cover("read back")


def eds(env, order):
    """writing one kind of microscope does not change how the next file is read or written"""
    from rsciio.msa import file_reader, file_writer

    out = []
    for i, kind in enumerate(order):
        kv = env.float("kv%d" % i)
        env.assume(env.all(kv > 31 if kind == "TEM" else kv < 29, kv > 0))
        live = env.float("live%d" % i)
        md = {"General": {"title": "t"}, "Signal": {"signal_type": "EDS_" + kind},
              "Acquisition_instrument": {kind: {"beam_energy": kv, "Detector": {"EDS": {"live_time": live}}}}}
        fn = env.path("e%d.msa" % i)
        file_writer(fn, dict(data=env.array("d", (2,), "uint16"), axes=[axis("E", 2, False, 0)], metadata=md, original_metadata={}))
        s = file_reader(fn)[0]
        om = s["original_metadata"]
        env.check("BEAMKV" in om and "LIVETIME" in om, "the acquisition parameters are written whatever was written before")
        env.check(env.all(env.same(om["BEAMKV"], kv), env.same(om["LIVETIME"], live)), "their values survive")
        env.check(s["metadata"]["Signal"]["signal_type"] == "EDS_" + kind, "EDS signal type follows the beam energy")
        out.append(sorted(s["metadata"]["Acquisition_instrument"]))
    env.check(all(o == out[0] for o in out), "the same file form is read into the same place each time")
    env.cover("read back")


def layout(env, form, ncol, sep, blank=False, units=False):
    """a spectrum file written by hand"""
    from rsciio.msa import file_reader

    n = 5
    y = [env.float("y%d" % i) for i in range(n)]
    x = [env.float("x%d" % i) for i in range(n)]
    sc, of, kv, th = env.float("sc"), env.float("of"), env.float("kv"), env.float("th")
    L = ["#FORMAT      : EMSA/MAS Spectral Data File", "#VERSION     : 1.0", "#TITLE       : part one", "#TITLE       :  part two", "#DATE        : 01-OCT-1991", "#TIME        : 12:34",
         "#OWNER       : me", "#COMMENT     : first", "#COMMENT     : , second", "#SOURCE-of  b: unknown", f"#NPOINTS     : {n}.", f"#NCOLUMNS    : {ncol}.", "#XUNITS      : eV", "#YUNITS      : Counts", f"#DATATYPE    : {form}",
         "#XPERCHAN    : " + str(sc), "#OFFSET      : " + str(of), "#XLABEL      : Energy", "#YLABEL      : Intensity", "#SIGNALTYPE  : ELS"]
    L.append("#BEAMKV   -kV: " + str(kv) if units else "#BEAMKV      : " + str(kv))
    L.append("#THICKNESS-nm: " + str(th) if units else "#THICKNESS   : " + str(th))
    L.append("#SPECTRUM    : Spectral Data Starts Here")
    want = []
    if form == "XY":
        if ncol == 1:
            L += [str(a) + sep + str(b) for a, b in zip(x, y)]
            want = y
        else:
            for i in range(n - 1):
                L.append(sep.join(map(str, (x[i], y[i], x[i], y[i + 1]))))
                want += [y[i], y[i + 1]]
    else:
        for i in range(0, n, ncol):
            L.append(sep.join(map(str, y[i:i + ncol])) + ("," if sep.startswith(",") else ""))
            if blank:
                L.append("")
        want = y
    L.append("#ENDOFDATA   : ")
    txt = "\r\n".join(L) + "\r\n"
    s = file_reader(env.file("a.msa", list(txt.encode("latin-1"))))[0]
    env.check(len(s["data"]) == len(want), "number of points")
    env.check(env.all(*[env.same(a, b) for a, b in zip(s["data"], want)]), "values in order")
    axes_match(env, s)
    a = s["axes"][0]
    env.check(env.all(env.same(a["scale"], sc), env.same(a["offset"], of)), "calibration from XPERCHAN and OFFSET")
    env.check((a["name"], a["units"]) == ("Energy", "eV"), "label and units from XLABEL and XUNITS")
    m = s["metadata"]
    env.check((m["General"]["date"], m["General"]["time"]) == ("1991-10-01", "12:34:00"), "date and time")
    env.check(m["General"]["title"] == "part one part two", "a title over several lines is joined")
    env.check(m["Signal"]["quantity"] == "Intensity (Counts)", "quantity from YLABEL and YUNITS")
    env.check(m["Signal"]["signal_type"] == "EELS" and s["original_metadata"]["COMMENT"] == "first, second", "signal type, comment over several lines")
    t = m["Acquisition_instrument"]["TEM"]
    env.check(env.all(env.same(t["beam_energy"], kv), env.same(m["Sample"]["thickness"], th)), "acquisition parameters, with or without a unit in the keyword")
    if units:
        env.check((t["beam_energy_units"], m["Sample"]["thickness_units"]) == ("kV", "nm"), "units of the keywords")
    env.cover("read")


def lines(*more):
    return ["#FORMAT      : EMSA/MAS Spectral Data File", "#VERSION     : 1.0", "#NPOINTS     : 1", "#NCOLUMNS    : 1", "#DATATYPE    : Y", "#XPERCHAN    : 1", "#OFFSET      : 0", *more, "#SPECTRUM    : Spectral Data Starts Here", "3.0,", "#ENDOFDATA   : "]


def energy(env, kv):
    """spectra up to 30 kV are of a scanning electron microscope"""
    from rsciio.msa import file_reader

    live, t = env.float("live"), env.float("t")
    L = lines("#SIGNALTYPE  : EDS", "#BEAMKV   -kV: " + kv, "#LIVETIME  -s: " + str(live), "#REALTIME -ms: " + str(t))
    s = file_reader(env.file("a.msa", list("\r\n".join(L).encode("latin-1"))))[0]
    m = s["metadata"]
    env.check(m["Signal"]["signal_type"] == ("EDS_SEM" if float(kv) <= 30 else "EDS_TEM"), "the signal type follows the beam energy")
    env.check(m["Signal"]["quantity"] == "X-rays (Counts)", "quantity of X-ray spectra")
    T = m["Acquisition_instrument"]["TEM"]
    env.check((T["beam_energy"], T["beam_energy_units"], T["Detector"]["EDS"]["live_time_units"], T["Detector"]["EDS"]["real_time_units"]) == (float(kv), "kV", "s", "ms"), "beam energy and units of the keywords")
    env.check(env.all(env.same(T["Detector"]["EDS"]["live_time"], live), env.same(T["Detector"]["EDS"]["real_time"], t)), "values of the keywords")
    env.cover("read")


def times(env, text, want):
    from rsciio.msa import file_reader

    y = env.float("y")
    day = env.choose("day", [1, 9, 10, 28, 31])
    mon = env.choose("mon", ["Jan", "MAR", "may", "JUL", "AUG", "oct", "DEC"])
    L = lines("#SIGNALTYPE  : ", "#DATE        : %02d-%s-2016" % (day, mon), "#TIME        : " + text)
    L[-2] = str(y) + ","
    s = file_reader(env.file("a.msa", list("\n".join(L).encode("latin-1"))))[0]
    g = s["metadata"]["General"]
    n = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"].index(mon.lower()) + 1
    env.check((g["date"], g["time"]) == ("2016-%02d-%02d" % (n, day), want), "date and time of the file")
    env.check(env.same(s["data"][0], y) and s["metadata"]["Signal"]["signal_type"] == "", "value")
    env.cover("read")


def harnesses(tier):
    fn = ["msa.file_writer", "msa.file_reader", "msa.parse_msa_string"]
    hs = []
    add = lambda name, f, p, c=("read back",): hs.append(H(name, f, p, 60, fn, "symbolic values, calibration and parameters", list(c)))
    for dt in ("uint8", "int16", "uint16", "int32", "uint32", "int64", "float32", "float64", ">i2", ">f4"):
        for fmt in ("Y", "XY"):
            add(f"rt {dt} {fmt}", roundtrip, dict(n=4, dtype=dt, fmt=fmt, st="EELS"))
    for st in ("", "EELS", "CL", "CL_SEM", "WDS", "AES", "PES", "XRF", "GAM", "other", "EDS_TEM", "EDS_SEM"):
        add(f"rt type {st}", roundtrip, dict(n=2, dtype="uint16", fmt="Y", st=st))
    for t in ("", "x" * 63 + " y", "x" * 64, "x" * 65, "a: b", "a: b: c", "w" * 62 + ": z" + "q" * 70, "100 % (µm)", "#5"):
        add(f"rt title {t[:5]}{len(t)}", roundtrip, dict(n=2, dtype="uint16", fmt="Y", st="EELS", title=t))
    for sep in (",", " ", "  ", ", "):
        for fmt in ("Y", "XY"):
            add(f"rt separator {sep!r} {fmt}", roundtrip, dict(n=3, dtype="int32", fmt=fmt, st="EELS", separator=sep))
    full = {"FORMAT": "EMSA/MAS Spectral Data File", "VERSION": "1.0", "DATE": "03-FEB-2014", "TIME": "04:05", "OWNER": "some one", "COMMENT": "c: d", "EMISSION": 4.5, "DATATYPE": "XY", "NPOINTS": 2.0}
    for fmt in ("Y", "XY"):
        add(f"rt original metadata {fmt}", roundtrip, dict(n=2, dtype="uint16", fmt=fmt, st="EELS", extra=full))
    add("rt original metadata own format", roundtrip, dict(n=2, dtype="uint16", fmt=None, st="EELS", extra=full))
    # the original metadata of a previous spectrum: what the signal says now comes first
    stale = {"OFFSET": 17.5, "XPERCHAN": 3.25, "XLABEL": "old", "XUNITS": "old", "BEAMKV": 1.5, "PROBECUR": 2.5, "THICKNESS": 3.5, "XTILTSTGE": 4.5, "COLLANGLE": 5.5, "LIVETIME": 6.5}
    for fmt in ("Y", "XY", None):
        for mic, det, st in (("TEM", "EELS", "EELS"), ("TEM", "EDS", "EDS_TEM")):
            add(f"rt stale {fmt} {det}", roundtrip, dict(n=2, dtype="uint16", fmt=fmt, st=st, extra={**full, **stale}, instr=(mic, det)))
    for kv in ("29.999", "30", "30.0", "3.0e+1", "30.001", "200"):
        add(f"energy {kv}", energy, dict(kv=kv), ("read",))
    for t, want in (("1:2", "01:02:00"), ("23:59:58", "23:59:58"), ("00:00", "00:00:00"), ("7:8:9", "07:08:09")):
        add(f"time {t}", times, dict(text=t, want=want), ("read",))
    for mic, det, st in (("TEM", "EELS", "EELS"), ("TEM", "EDS", "EDS_TEM")):
        add(f"rt instrument {mic} {det}", roundtrip, dict(n=2, dtype="uint16", fmt="Y", st=st, instr=(mic, det)))
    for order in (("SEM", "TEM"), ("TEM", "SEM"), ("SEM", "SEM", "TEM")):
        add(f"kinds {order}", eds, dict(order=order))
    for form, ncol in (("XY", 1), ("XY", 2), ("Y", 1), ("Y", 2), ("Y", 5)):
        for sep in (", ", ",", " ", "\t"):
            for u in (False, True):
                add(f"layout {form} {ncol} {sep!r} {u}", layout, dict(form=form, ncol=ncol, sep=sep, blank=u, units=u), ("read",))
    return hs
