"""Quadstar mass spectra: analog scans (.sac) and bargraphs (.sbc)."""
import struct

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "numbers of traces, timesteps and masses, time stamps and exponents of the full scale concrete or chosen from lists; intensities are any floats, infinite and NaN included",
]
F = ["rsciio.quadstar._api." + n for n in ("file_reader", "_read_sac_file", "_read_sbc_file", "_read_general_header", "_read_trace_headers", "_read_trace_info", "_find_first_data_position", "_build_datetime", "_decode_bytes")]


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(b))


def header(env, steps, traces, length, bad_date=False):
    c = [0] * 200
    put(c, 0, env.pack("<h", env.int("index", -32768, 32767)))
    sw = env.int("software", -2**31, 2**31 - 1)
    put(c, 2, env.pack("<i", sw))
    put(c, 6, [4, 22])
    put(c, 8, [18, 57, 12, 29, 2, 100] if not bad_date else [18, 57, 12, 31, 2, 100])
    put(c, 0x0E, list(b"operator"))
    put(c, 0x64, env.pack("<i", steps))
    put(c, 0x68, env.pack("<h", traces))
    put(c, 0x6A, env.pack("<i", length))
    return c, sw


def check_general(env, o, name, bad_date, sw, steps):
    g = o["metadata"]["General"]
    env.check(str(g["original_filename"]).endswith(name), "file name")
    env.check((g.get("date"), g.get("time")) == ((None, None) if bad_date else ("2000-02-29", "12:57:18")), "date and time")
    h = o["original_metadata"]["general_header"]
    env.check(env.all(env.same(h["software_id"], sw), h["username"] == "operator", h["n_timesteps"] == steps, h["version_minor"] == 22), "header")


def check_time(env, a, t, uniform):
    env.check(a["name"] == "Time" and a["units"] == "s" and a["size"] == len(t) and a["navigate"] is True and a["index_in_array"] == 0, "time axis")
    if uniform:
        env.check(a["offset"] == 0 and near(a["scale"], (t[-1] - t[0]) / (len(t) - 1), 1e-6), "interval")
    else:
        env.check(len(a["axis"]) == len(t) and all(near(x, y - t[0], 1e-6) for x, y in zip(a["axis"], t)), "time of each cycle")


def h_sac(env, steps, traces, uniform=True, text=True, bad_date=False, gap=0, upper=False):
    """traces: (type, scan width, values per mass)"""
    from rsciio.quadstar import file_reader

    n = len(traces)
    # layout: header, trace headers, infos, first block (time, then each trace), further blocks
    info0 = 200 + 9 * n + gap
    start = pos = info0 + 137 * n + gap
    first = [ty for ty, _, _ in traces].index(0x11) if any(t[0] == 0x11 for t in traces) else None
    dpos = []
    for i, (ty, w, v) in enumerate(traces):
        pos += 6 * (i == first)
        dpos.append(pos)
        pos += 6 + 4 * (w * v if ty == 0x11 else 2) + gap
    length = pos - start
    c, sw = header(env, steps, n, length, bad_date)
    base_s, base_t = env.choose("base", [(1000, 0), (951825600, 9999), (4294967000, 5)])
    ts = env.choose("ts", [[(2 * i, 0) for i in range(steps)], [(7 + i * i, 1234 * i) for i in range(steps)]])
    put(c, 0xC2, list(struct.pack("<IH", base_s, base_t)))
    want, fm, com = {}, [], []
    for i, (ty, w, v) in enumerate(traces):
        c += [ty] + list(struct.pack("<ii", info0 + 137 * i, dpos[i]))
    c += [0] * gap
    f0 = env.float("first", "f")
    for i, (ty, w, v) in enumerate(traces):
        b = [0] * 137
        if text:
            for o, s in ((0x02, "Ion Current"), (0x0F, "A"), (0x1D, "Mass"), (0x2A, "amu"), (0x38, f"comment {i}")):
                put(b, o, list(s.encode("latin-1")))
        put(b, 0x7A, env.pack("<f", f0))
        put(b, 0x7E, list(struct.pack("<H", w)))
        b[0x80] = v
        c += b
    c += [0xAA] * gap
    # full scales: any exponents of the list, for each trace and timestep
    exps = env.choose("exps", [(0, 2, -9), (-6, -6, -6), (3, -1, 38)])
    for s in range(steps):
        env.check(len(c) == start + s * length, "layout of the check itself")
        for i, (ty, w, v) in enumerate(traces):
            if i == first:
                c += list(struct.pack("<IH", *ts[s]))
            k = w * v if ty == 0x11 else 2
            e = exps[(i + s) % 3]
            c += [9, 9, 9, 9] + list(struct.pack("<h", e))
            cells = env.bytes(f"y{s}_{i}", 4 * k)
            c += cells
            fsr = float(np.float32(10.0**e))
            if ty == 0x11:
                want.setdefault(i, []).append([(y, fsr) for y in env.elems(cells, "<f4")])
            c += [0x55] * gap
    c += [0] * 7
    name = "a.SAC" if upper else "a.sac"
    r, e = env.attempt(lambda: file_reader(env.file(name, c), use_uniform_signal_axis=uniform))
    if steps == 0 or not want:
        env.check(isinstance(e, ValueError), "files without data refused")
        env.cover("read")
        return
    if e is not None:
        raise e
    env.check(len(r) == len(want), "a signal for each trace of data")
    for o, i in zip(r, sorted(want)):
        ty, w, v = traces[i]
        shape = (steps, w * v) if steps > 1 else (w * v,)
        env.check(tuple(o["data"].shape) == shape and str(o["data"].dtype) == "float32", "shape")
        got = list(o["data"].reshape(-1))
        ok = []
        for x, (y, fsr) in zip(got, [p for row in want[i] for p in row]):
            over = y > fsr
            ok.append(env.ite(over, x != x, env.same(x, y)))
        env.check(env.all(ok), "every intensity; NaN where the full scale is exceeded, and only there")
        a = o["axes"]
        env.check(len(a) == len(shape), "axes")
        m = a[-1]
        env.check(env.all(m["size"] == w * v, env.same(m["offset"], f0), near(m["scale"], 1 / v), m["navigate"] is False, m["index_in_array"] == len(shape) - 1), "mass axis")
        env.check((m["name"], m["units"]) == (("Mass", "amu") if text else ("Mass-to-charge ratio", "m/z")), "name of the mass axis")
        t = [base_s + x + (base_t + y) * 1e-4 for x, y in ts]
        if steps > 1:
            check_time(env, a[0], t, uniform)
        env.check(all(near(x, y) for x, y in zip(o["original_metadata"]["timestamps"], t)) and len(o["original_metadata"]["timestamps"]) == steps, "time stamps")
        check_general(env, o, name, bad_date, sw, steps)
        env.check(o["metadata"]["Signal"]["quantity"] == ("Ion Current (A)" if text else "Intensity"), "quantity")
        env.check(o["metadata"]["General"].get("notes") == (f"comment {i}" if text else None), "comment")
    env.cover("read")


def h_sbc(env, steps, width, uniform=True, bad_date=False, pad=80, upper=False):
    from rsciio.quadstar import file_reader

    n = width + 1
    c, sw = header(env, steps, 0, 0, bad_date)
    c += [0] * (0x100 - 200)
    put(c, 0xCB, list(struct.pack("<H", width)))
    c += [0x77] * pad
    start = len(c)
    ts = env.choose("ts", [[3 * i for i in range(steps)], [5 + i * i for i in range(steps)]])
    masses = env.choose("masses", [[1.0 + i for i in range(n)], [10.5 + 0.25 * i for i in range(n)]])
    want = []
    for s in range(steps):
        c += list(struct.pack("<IIBI", ts[s], 0xFFFFFFFF, 0xFB, 0x01020304))
        for i in range(n):
            c += list(struct.pack("<f", masses[i] + (0.1 * s if s else 0)))
            cells = env.bytes(f"y{s}_{i}", 4)
            c += cells
            want += env.elems(cells, "<f4")
    name = "a.SBC" if upper else "a.sbc"
    r, e = env.attempt(lambda: file_reader(env.file(name, c), use_uniform_signal_axis=uniform))
    if steps == 0:
        env.check(isinstance(e, ValueError), "files without data refused")
        env.cover("read")
        return
    if e is not None:
        raise e
    (o,) = r
    shape = (steps, n) if steps > 1 else (n,)
    env.check(tuple(o["data"].shape) == shape, "shape")
    env.check(env.all([env.same(x, y) for x, y in zip(list(o["data"].reshape(-1)), want)]), "every intensity")
    a = o["axes"]
    m = a[-1]
    env.check(len(a) == len(shape) and m["size"] == n and m["offset"] == masses[0] and (n == 1 or near(m["scale"], masses[1] - masses[0])) and m["navigate"] is False and m["index_in_array"] == len(shape) - 1 and m["units"] == "m/z", "mass axis")
    if steps > 1:
        check_time(env, a[0], ts, uniform)
    check_general(env, o, name, bad_date, sw, steps)
    om = o["original_metadata"]
    env.check(list(om["masses"]) == masses and list(om["timestamps"]) == [float(x) for x in ts] and om["sbc_parameters"]["data_start"] == start, "masses and times")
    env.cover("read")


def h_short(env, missing):
    """files that end before their data"""
    from rsciio.quadstar import file_reader

    c, sw = header(env, 2, 0, 0)
    c += [0] * 56
    put(c, 0xCB, list(struct.pack("<H", 2)))
    c += [0] * (2 * (13 + 24) - missing)
    r, e = env.attempt(lambda: file_reader(env.file("a.sbc", c)))
    env.check(isinstance(e, ValueError), "truncated files refused")
    r, e = env.attempt(lambda: file_reader(env.path("a.sbc"), lazy=True))
    env.check(isinstance(e, NotImplementedError), "lazy reading refused")
    env.cover("read")


def harnesses(tier):
    hs = []
    big = 2 if tier == "thorough" else 1

    def add(name, fn, **kw):
        hs.append(H(name, fn, kw, budget=90, functions=F, bounds="up to 4 timesteps of 3 traces of 6 values", covers=["read"]))

    A = 0x11
    for uniform in (True, False):
        z = "" if uniform else " stamps"
        add(f"sac{z}", h_sac, steps=3, traces=[(A, 3, 1)], uniform=uniform)
        add(f"sac traces{z}", h_sac, steps=2, traces=[(A, 2, 2), (A, 3, 1)], uniform=uniform)
        add(f"sac one cycle{z}", h_sac, steps=1, traces=[(A, 2, 2)], uniform=uniform)
        add(f"sbc{z}", h_sbc, steps=3, width=2, uniform=uniform)
        add(f"sbc one cycle{z}", h_sbc, steps=1, width=3, uniform=uniform)
        add(f"sbc two{z}", h_sbc, steps=2, width=4, uniform=uniform)
    add("sac other traces", h_sac, steps=2, traces=[(A, 1, 2), (0x12, 2, 1), (A, 1, 3)], gap=3)
    add("sac other trace first", h_sac, steps=2, traces=[(0x12, 2, 1), (A, 2, 1)])
    add("sac gaps", h_sac, steps=2, traces=[(A, 1, 2), (A, 2, 1)], gap=5, upper=True)
    add("sac without text", h_sac, steps=2, traces=[(A, 2, 1)], text=False)
    add("sac without date", h_sac, steps=2, traces=[(A, 2, 1)], bad_date=True)
    add("sac without cycles", h_sac, steps=0, traces=[(A, 2, 1)])
    add("sac without traces", h_sac, steps=1, traces=[])
    add("sac no analog trace", h_sac, steps=1, traces=[(0x12, 2, 1)])
    add("sac 4 cycles", h_sac, steps=4 * big, traces=[(A, 2, 3), (A, 1, 1), (A, 1, 2)])
    add("sbc without date", h_sbc, steps=2, width=1, bad_date=True)
    add("sbc one mass", h_sbc, steps=2, width=0)
    add("sbc one value", h_sbc, steps=1, width=0, upper=True)
    add("sbc short header", h_sbc, steps=2, width=1, pad=0)
    add("sbc without cycles", h_sbc, steps=0, width=1)
    for m in (1, 13, 37, 73):
        add(f"short {m}", h_short, missing=m)
    return hs
