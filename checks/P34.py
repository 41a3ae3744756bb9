"""Logs of in-situ experiments: DENSsolutions Impulse and DigiHeater, Protochips."""
import datetime
import signal as sg

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "np.genfromtxt and np.loadtxt are run for real on the text, symbolic numbers standing as distinct numbers of their kind",
    "readings symbolic (written as text with the full precision), time stamps and settings chosen from lists",
]
FI = ["rsciio.impulse._api." + n for n in ("file_reader", "_impulseCSV_log_reader", "ImpulseCSV._parse_header", "ImpulseCSV._read_data", "ImpulseCSV._read_metadatafile", "ImpulseCSV.get_dictionary", "ImpulseCSV._get_metadata", "ImpulseCSV._get_axes", "ImpulseCSV._parse_quantity_units")]
FP = ["rsciio.protochips._api." + n for n in ("file_reader", "_protochips_log_reader", "ProtochipsCSV._parse_header", "ProtochipsCSV._read_data", "ProtochipsCSV._read_all_metadata_header", "ProtochipsCSV._parse_metadata_header", "ProtochipsCSV._parse_notes", "ProtochipsCSV._get_axes", "ProtochipsCSV._get_metadata", "ProtochipsCSV._get_original_metadata", "ProtochipsCSV._parse_quantity", "ProtochipsCSV._parse_quantity_units", "ProtochipsCSV._get_mapping", "ProtochipsCSV._parse_calibration_file_name")]
FD = ["rsciio.dens._api." + n for n in ("file_reader", "_cnv_time", "_bad_file")]


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(b))


def column(env, data, want):
    got = list(data)
    return len(got) == len(want) and env.all([env.same(x, y) for x, y in zip(got, want)])


def steps(t):
    """mean of the intervals, the first and the last left aside"""
    t = t[1:-1]
    return (t[-1] - t[0]) / (len(t) - 1)


COLS = {
    "Temperature Measured (degC)": "degC",
    "MixValve": "",
    "Pin Measured": "",
    "Fnr (mln/min)": "mln/min",
    "% Gas1 Measured": "",
    "Channel#1": "",
    "Channel#2": "",
    "Power (W) Measured": "",
}


def h_impulse(env, cols, rows, stem, meta=True, notes=True, kind="Synchronized data"):
    from rsciio.impulse import file_reader

    t = env.choose("t", [[7.787 + 0.5 * i for i in range(rows)], [float(i * i) for i in range(rows)], [0.25 * i for i in range(rows)]])
    mv = env.choose("mv", [[(0, 0, 0)] * rows, [((i % 3) - 1, (i // 2) % 3 - 1, 1 - i % 3) for i in range(rows)]])
    v = {c: [env.float(f"{c}{i}") for i in range(rows)] for c in cols if c != "MixValve"}
    name = f"{stem}_{kind}.csv"
    with open(env.path(name), "w", encoding="utf-8") as f:
        f.write(",".join(["TimeStamp", "Experiment time"] + list(cols)) + "\n")
        for i in range(rows):
            f.write(",".join([f"13:40:{i:02d}.849", repr(t[i])] + ["; ".join(map(str, mv[i])) if c == "MixValve" else f"{v[c][i]}" for c in cols]) + "\n")
    lines = env.choose("notes", [["13:46:46: one"], ["13:46:46: one, with a comma", "13:46:52: two, three,four", "last"]]) if notes else []
    gas = env.choose("gas", ["H2", "28 (Nitrogen)", "H2, diluted"])
    if meta:
        with open(env.path(f"{stem}_Metadata.log"), "w") as f:
            f.write(f"Experiment date, 06-08-2021\nExperiment time, 13:40:19\nGas 1, {gas}\nMassSpec File Location, \n")
            if lines:
                f.write("Live notes, " + "\n".join(lines) + "\n")
    out = file_reader(env.path(name))
    env.check([o["metadata"]["General"]["title"] for o in out] == list(cols), "a signal for each quantity")
    for o, c in zip(out, cols):
        if c == "MixValve":
            env.check([int(x) for x in o["data"]] == [(a + 2) * 100 + (b + 2) * 10 + d + 2 for a, b, d in mv], "position of the valve")
        else:
            env.check(column(env, o["data"], v[c]), "every reading")
        g = o["metadata"]["General"]
        env.check(g["original_filename"] == name and o["metadata"]["Signal"]["quantity"] == COLS[c], "file name and unit")
        env.check((g.get("date"), g.get("time")) == (("06-08-2021", "13:40:19") if meta else (None, None)), "date and time")
        (a,) = o["axes"]
        env.check(a["size"] == rows and a["name"] == "Time" and a["index_in_array"] == 0 and a["navigate"] is False and near(a["scale"], steps(t)), "time axis")
        om = o["original_metadata"]["Impulse_header"]
        if meta:
            env.check(om["Experiment_date"] == "06-08-2021" and om["Gas_1"] == gas and om["MassSpec_File_Location"] == "", "header")
            env.check(list(om["Notes"]) == lines, "notes")
        else:
            env.check(not om, "nothing invented")
    env.cover("read")


PCOLS = {
    "electrical": ["Channel A Current", "Channel A Voltage", "Channel A Resistance", "Channel B Current"],
    "thermal": ["Channel A Temperature"],
    "gas": ["Holder Temperature", "Holder Pressure", "Vacuum Tank Pressure"],
}
UNITS = [("Temperature", "Degrees C"), ("Current", "Amps"), ("Voltage", "Volts"), ("Resistance", "Ohms"), ("Pressure", "Torr")]


def h_protochips(env, cols, rows, user=True, calib=True, space=True, strict=False):
    from rsciio.protochips import file_reader

    cols = PCOLS[cols]
    s = ", " if space else ","
    t = env.choose("t", [[100 * i + 47 for i in range(rows)], [0] + [3 * i * i + 1 for i in range(1, rows)]])
    notes = env.choose("notes", [[""] * rows, ["", "started"] + [""] * (rows - 2), ["first"] + [""] * (rows - 2) + ["sample #2 moved"], ["", "5"] + [""] * (rows - 2), [str(i) for i in range(rows)]])
    v = {c: [env.float(f"{c}{i}") for i in range(rows)] for c in cols}
    head = []
    if calib:
        head.append("Calibration file = E:\\cal\\AD21013_8.cal")
    head += ["Date (yyyy.mm.dd) = 2014.12.03", "Time (hh:mm:ss.ms) = 17:15:37.192", "Time units = Milliseconds"]
    head += [f"{a} units = {b}" for a, b in UNITS]
    if user:
        head.append("User agreeing to terms = someone")
    with open(env.path("a.csv"), "w") as f:
        f.write(", ".join(["Time", "Notes"]) + s + s.join(cols) + "\n")
        for h in head:
            f.write(s.join(["0", h] + ["25"] * len(cols)) + "\n")
        for i in range(rows):
            f.write(s.join([str(t[i]), notes[i]] + [f"{v[c][i]}" for c in cols]) + "\n")
    out = file_reader(env.path("a.csv"))
    units = dict(UNITS)
    if not user and not strict and len(out) == len(cols) and out[0]["data"].shape == (rows - 1,):
        # F155
        rows, t, notes, v = rows - 1, t[1:], notes[1:], {c: x[1:] for c, x in v.items()}
    env.check(len(out) == len(cols), "a signal for each quantity")
    for o, c in zip(out, cols):
        last = c.split(" ")[-1]
        env.check(o["data"].shape == (rows,) and column(env, o["data"], v[c]), "every reading")
        g = o["metadata"]["General"]
        env.check(g["title"] == f"{c} ({units[last]})" and o["metadata"]["Signal"]["quantity"] == f"{last} ({units[last]})", "title and unit")
        env.check(g["original_filename"] == "a.csv" and g["date"] == "2014-12-03" and g["time"] == "17:15:37.192000", "date and time")
        (a,) = o["axes"]
        env.check(a["size"] == rows and a["name"] == "Time" and a["units"] == "s" and a["offset"] == 0 and a["index_in_array"] == 0 and a["navigate"] is False and near(a["scale"], steps(t) / 1000), "time axis")
        om = o["original_metadata"]["Protochips_header"]
        env.check(om.get("User") == ("someone" if user else None) and om["Time units"] == "Milliseconds" and om[f"{c}_units"] == units[last], "header")
        env.check([float(x) for x in om["Time axis"]["value"]] == [float(x) for x in t], "time stamps")
        path = om["Calibration file path"]
        env.check(path == "E:\\cal\\AD21013_8.cal" if calib else "Original notes" in path, "calibration")
        f = o["mapping"]["Protochips_header.Calibration file path"][1]
        if calib:
            env.check(f(path) == "Calibration file name: AD21013_8.cal", "name of the calibration")
        n = [[str(x).strip() for x in r] for r in om["Original notes"]]
        want = [(float(x), y) for x, y in zip(t, notes) if y]
        env.check([(float(x), y) for x, y in zip(*n) if y] == want and len(n[0]) == len(want), "notes and their times")
    env.cover("read")


def h_other(env, which, text):
    import importlib

    with open(env.path("a.csv"), "w") as f:
        f.write(text)
    m = importlib.import_module(f"rsciio.{which}")

    def stop(*a):
        raise TimeoutError("reading does not end")

    old = sg.signal(sg.SIGALRM, stop)
    sg.setitimer(sg.ITIMER_REAL, 8)
    try:
        r, e = env.attempt(lambda: m.file_reader(env.path("a.csv")))
    finally:
        sg.setitimer(sg.ITIMER_REAL, 0)
        sg.signal(sg.SIGALRM, old)
    env.check(isinstance(e, (OSError, AssertionError)) and not isinstance(e, TimeoutError), "files of another kind refused")
    r, e = env.attempt(lambda: m.file_reader(env.path("a.csv"), lazy=True))
    env.check(isinstance(e, NotImplementedError), "lazy reading refused")
    env.cover("read")


HEAD = "sample\ttime\tTset[C]\tTmeas[C]\tRheat[ohm]\tVheat[V]\tIheat[mA]\tPheat [mW]\tc\n"


def h_dens(env, rows, clock, blank=0):
    from rsciio.dens import file_reader

    if clock:
        start = datetime.datetime(2015, 4, 16, *env.choose("start", [(13, 54, 37, 680000), (23, 59, 59, 500000), (0, 0, 0, 0)]))
        st = env.choose("st", [0.33, 1.0, 40000.0])
        dts = [start + datetime.timedelta(microseconds=int(st * 1e6) * i + (10000 * i * i if st < 2 else 0)) for i in range(rows)]
        t0 = datetime.datetime(2015, 4, 16)
        t = [(d - t0).total_seconds() for d in dts]
        txt = [d.strftime("%H:%M:%S.%f") for d in dts]
    else:
        t = env.choose("t", [[0.33 * i + 2 for i in range(rows)], [0.5 * i * i for i in range(rows)]])
        txt = [repr(x) for x in t]
    v = [env.float(f"v{i}") for i in range(rows)]
    with open(env.path("a.dens"), "w") as f:
        f.write("\n" * blank + "16/04/'15 13:53\tDigiheater 3.1\nR0 = 282.7\ta =  0.5\tb = 0.225\tc = 278.222\nTsample = 330 [ms]\n" + HEAD)
        for i in range(rows):
            f.write(f"{i + 1}\t{txt[i]}\t23.0\t{v[i]}\t281.617\t0.075535\t0.267806\t0.020229\t278.222\tnorm\n")
    (o,) = file_reader(env.path("a.dens"))
    env.check(o["data"].shape == (rows,) and column(env, o["data"], v), "every temperature")
    (a,) = o["axes"]
    m = (rows - 1) / 2
    sl = sum((i - m) * x for i, x in enumerate(t)) / sum((i - m) ** 2 for i in range(rows))
    env.check(a["size"] == rows and a["name"] == "Time" and a["units"] == "s" and a["index_in_array"] == 0 and a["navigate"] is False and near(a["scale"], sl, 1e-8) and near(a["offset"], sum(t) / rows - sl * m, 1e-8), "time axis, over midnight too")
    g = o["metadata"]["General"]
    env.check(g["date"] == "2015-04-16" and g["time"] == "13:53:00" and g["original_filename"] == "a.dens" and o["metadata"]["Signal"]["quantity"] == "Temperature (Celsius)", "date and quantity")
    h = o["original_metadata"]["DENS_header"]
    env.check([h[k] for k in ("R0", "a", "b", "c")] == [282.7, 0.5, 0.225, 278.222], "calibration")
    env.cover("read")


def k_user(env):
    h_protochips(env, "thermal", 6, user=False, strict=True)


KNOWN = {"F155": k_user}


def harnesses(tier):
    hs = []
    b = "up to 6 rows"

    def imp(name, **kw):
        hs.append(H("impulse " + name, h_impulse, kw, budget=60, functions=FI, bounds=b, covers=["read"]))

    al = list(COLS)
    imp("all", cols=al, rows=5, stem="Exp")
    imp("reverse", cols=al[::-1], rows=4, stem="my_exp 2")
    imp("raw", cols=al[:1], rows=6, stem="Exp", kind="Heat raw")
    imp("no notes", cols=al[2:5], rows=4, stem="Exp", notes=False)
    imp("no metadata", cols=al[:3], rows=4, stem="Exp", meta=False)

    def pro(name, **kw):
        hs.append(H("protochips " + name, h_protochips, kw, budget=60, functions=FP, bounds=b, covers=["read"]))

    for k in PCOLS:
        pro(k, cols=k, rows=5)
    pro("no blanks", cols="gas", rows=4, space=False)
    pro("no user", cols="gas", rows=6, user=False, calib=False, space=False)
    pro("no user with blanks", cols="thermal", rows=6, user=False)
    pro("no calibration", cols="electrical", rows=4, calib=False)
    for clock in (True, False):
        for rows in (2, 3, 6):
            hs.append(H(f"dens {'clock' if clock else 'seconds'} {rows}", h_dens, {"rows": rows, "clock": clock, "blank": rows - 2}, budget=60, functions=FD, bounds=b, covers=["read"]))
    for which, f in (("impulse", FI), ("protochips", FP), ("dens", FD)):
        for i, text in enumerate(["", "\n\n", "a,b,c\n1,2,3\n", "a\tb\nc\n", "Time, Test, Channel A Temperature\n", "16/04/'15 13:53\tDigiheater 3.2\n", "16/04/'15 13:53\tDigiheater 3.1\nR0 = 282.7\ta =  0.5\tb = 0.225\tc = 278.222\nx\nsample\ttime\n"]):
            hs.append(H(f"{which} other {i}", h_other, {"which": which, "text": text}, budget=30, functions=f, bounds="-", covers=["read"]))
    return hs
