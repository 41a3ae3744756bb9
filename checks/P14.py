"""JEOL maps, images, spectra and workspaces."""
import datetime as dtm

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "each frame of a pts stream starts with its y token and holds its lines in ascending order; only the last frame can be incomplete",
    "the sparse array of lazy maps is modelled as a dense array with the same sum of duplicates (sparse is a library outside the repository)",
    "names and texts of the headers are concrete",
]
MOD = "rsciio.jeol._api"


# ---------------------------------------------------------------- tree
def enc(env, v):
    if isinstance(v, str):
        b = v.encode("shift_jis") + b"\0"
        return 12, list(b)
    if isinstance(v, tuple):  # (type, format, values)
        t, f, xs = v
        c = []
        for x in xs:
            c += list(env.pack(f, x))
        return t, c
    if isinstance(v, bool):
        return 11, [int(v)]
    return 5, list(env.pack("<d", v))


def tree(env, d):
    out = []
    for k, v in d.items():
        value = None
        if isinstance(k, tuple):
            k, value = k
        kb = k.encode() + b"\0"
        out += [1] + list(env.pack("<i", len(kb))) + list(kb)
        if isinstance(v, dict):
            if value is None:
                out += list(env.pack("<ii", 0, 0))
            else:
                t, c = enc(env, value)
                out += list(env.pack("<ii", t, len(c))) + c
            out += tree(env, v)
        else:
            t, c = enc(env, v)
            out += list(env.pack("<ii", t, len(c))) + c
        out.append(255)
    return out


def pts(env, cells, w, h, sweep, mag=2000.0, hv=20.0, scan=25.6, A=0.01, B=-0.1, digz=96, dwell=0.5, rt=3.0, date=41000.75, head_pos=400, pad=4, tpl="T3", det=(30.0, "EX", 25.0, 130.0)):
    az, dt, el, res = det
    t = tree(env, {
        "PTTD Data": {"AnalyzableMap MeasData": {
            "Meas Cond": {"Pixels": "%dx%d" % (w, h), "Tpl": tpl},
            "MeasCond": {"Mag": mag, "AccKV": hv},
            "Doc": {"CoefA": A, "CoefB": B, "DwellTime(msec)": dwell, "Sweep": (3, "<i", [sweep]), "RealTime": rt},
        }},
        "PTTD Param": {"Params": {
            ("PARAMPAGE0", "SEM"): {"ScanSize": scan, "DirAng": az, "DetT": dt, "ElevAng": el, "MnKaRES": res},
            ("PARAMPAGE1", "EDXRF"): {"Tpl": {"T1": {"DigZ": (3, "<i", [7])}, tpl: {"DigZ": (3, "<i", [digz])}}},
        }},
    }) + [255]
    data_pos = head_pos + 12 + len(t) + pad
    out = list(env.pack("<I", 304)) + list(b"abcdef\0\0")
    out += list(env.pack("<IIIIII", 1, 2, head_pos, len(t), data_pos, 2 * len(cells)))
    out += list(b"group".ljust(128, b"\0")) + list(b"memo".ljust(132, b"\0")) + list(env.pack("<d", date))
    out += [0xEE] * (head_pos + 12 - len(out)) + t + [0xEE] * pad
    for c in cells:
        out += list(env.pack("<H", c))
    return env.file("map.pts", out)


def stream(frames, again=False):
    """frames: list of lines (y, [(x, [("b"|"a"|"f", value)...])])"""
    out = []
    for f in frames:
        for y, line in f:
            out.append(0x9000 + y)
            for x, ev in line:
                if again:  # the line is marked before each pixel
                    out.append(0x9000 + y)
                out.append(0x8000 + x)
                for k, v in ev:
                    out.append({"a": 0xA000, "b": 0xB000, "f": 0x6000}[k] + v)
    return out


def expect(env, frames, index, shape, wn, hn, rebin, shifts, em):
    """counts of the frames ``index``; shape (h, w, c) before shifts"""
    hh, ww, cc = shape
    s = [shifts[i] if shifts is not None else (0, 0, 0) for i in index] if index else []
    my, mx = (max(a[0] for a in s), max(a[1] for a in s)) if s else (0, 0)
    ny, nx = (min(a[0] for a in s), min(a[1] for a in s)) if s else (0, 0)
    hh, ww = hh + ny - my, ww + nx - mx
    out = []
    for i, sh in zip(index, s):
        ev = []
        for y, line in frames[i]:
            for x, evs in line:
                for k, v in evs:
                    yy, xx = y // hn + sh[0] - my, x // wn + sh[1] - mx
                    if k == "b" and not em:
                        ev.append((yy, xx, v // rebin + sh[2], 1))
                    elif k == "a" and em:
                        ev.append((yy, xx, 0, v))
        out.append(ev)
    return hh, ww, out, (my, mx)


def compare(env, data, hh, ww, cc, evs, sum_frames, what):
    if sum_frames:
        env.check(tuple(data.shape) == (hh, ww) + ((cc,) if cc else ()), what + ": shape of the summed map")
        evs = [[e for ev in evs for e in ev]]
    else:
        env.check(tuple(data.shape) == (len(evs), hh, ww) + ((cc,) if cc else ()), what + ": shape of the frames")
    for f, ev in enumerate(evs):
        d = data if sum_frames else data[f]
        ok = []
        for y in range(hh):
            for x in range(ww):
                for z in range(cc or 1):
                    n = 0
                    for a, b, c, v in ev:
                        conds = [(a, y), (b, x)] + ([(c, z)] if cc else [])
                        if any(not env.is_sym(p) and p != q for p, q in conds):
                            continue
                        cs = [p == q for p, q in conds if env.is_sym(p)]
                        n = n + (env.ite(env.all(*cs), v, 0) if cs else v)
                    ok.append((d[y, x, z] if cc else d[y, x]) == n)
        env.check(env.all(*ok), what + ": every count in its pixel")


# a set of frames: (frames, width, height); the last one may be incomplete
def make(env, kind, w, h, n, em, events, low=0):
    """n frames of w x h with all lines; events per frame drawn symbolically"""
    sx, sy = 4096 // w, 4096 // h
    frames = []
    k = 0
    for f in range(n):
        lines = []
        last = f == n - 1
        ny = h
        if kind == "half" and last:
            ny = max(1, h // 2)
        for y in range(ny):
            pix = []
            for x in range(w):
                if kind == "short" and last and y == h - 1 and x == w - 1:
                    continue
                ev = []
                if em:
                    ev.append(("a", env.int("a%d_%d_%d" % (f, y, x), 0, 4095) if (x + y + f) % 3 == 0 else (17 * x + 5 * y + 200 * f + 1 + low) % 4096))
                if (f, y, x) in events:
                    for _ in range(events[f, y, x]):
                        ev.append(("b", env.int("b%d" % k, 0, 4095)))
                        k += 1
                if (x + y) % 2:
                    ev.insert(0, ("f", 5))
                if ev:
                    pix.append((x * sx, ev))
            lines.append((y * sy, pix))
        frames.append(lines)
    return frames


def h_map(env, w, h, n, em, kind, events, rebin, lazy, sum_frames, only_valid, ds=1, shifts=None, frame_list=None, sweep=None, cutoff=None, known_starts=False, dtype="uint8", again=False, low=0):
    from rsciio.jeol._api import file_reader

    sparse_stub(env)
    frames = make(env, kind, w, h, n, em, events, low)
    cells = stream(frames, again)
    sweep = n if sweep is None else sweep
    A, B, digz = 0.01, -0.1, 96
    p = pts(env, cells, w, h, sweep, A=A, B=B, digz=digz)
    dw, dh = ds if isinstance(ds, tuple) else (ds, ds)
    kw = {}
    sh3 = None
    if shifts is not None:
        kw["frame_shifts"] = [list(s) for s in shifts]
        sh3 = [tuple(s) + (0,) * (3 - len(s)) for s in shifts]
        if len(shifts[0]) == 3:
            kw["frame_shifts"] = np.array(shifts, dtype="int16")
        given = copy.deepcopy(kw["frame_shifts"])
    if frame_list is not None:
        kw["frame_list"] = list(frame_list)
    if cutoff is not None:
        kw["cutoff_at_kV"] = cutoff
    starts = [0]
    for f in frames:
        starts.append(starts[-1] + len(stream([f], again)))
    if known_starts:
        kw["frame_start_index"] = starts[:-1]
    out = file_reader(p, lazy=lazy, rebin_energy=rebin, sum_frames=sum_frames, only_valid_data=only_valid, read_em_image=True, downsample=ds if not isinstance(ds, tuple) else list(ds), SI_dtype=getattr(np, dtype), **kw)
    # frames to expect
    index = list(range(n)) if frame_list is None else [i for i in frame_list if 0 <= i <= sweep]
    full = {i: not (kind in ("half",) and i == n - 1) and not (kind == "short" and em and i == n - 1) for i in range(n)}
    sel = [i for i in index if i < n]
    if shifts is not None and frame_list is None:
        sel = [i for i in sel if i < len(shifts)]
    load = []
    for i in sel:
        if only_valid and not full[i]:
            break
        load.append(i)
    cc = 4096 // rebin
    if cutoff is not None:
        cc = int(round((cutoff - (B - A * digz)) / (A * rebin)))
    wn, hn = 4096 // w * dw, 4096 // h * dh
    base = (h // dh, w // dw, cc)
    # shifts are relative to the largest among the frames asked for
    hh, ww, _, (my, mx) = expect(env, frames, sel, base, wn, hn, rebin, sh3, False)
    si = [expect_frame(env, frames[i], wn, hn, rebin, sh3, i, my, mx, False) for i in load]
    ei = [expect_frame(env, frames[i], wn, hn, rebin, sh3, i, my, mx, True) for i in load]
    has_em = em and bool(sel)
    env.check(len(out) == 1 + has_em, "the map, and the image if there is one")
    s = out[0]
    data = env.nd(s["data"])
    if not lazy:
        env.check(np.dtype(data.dtype) == np.dtype(dtype), "the data type asked for")
    compare(env, data, hh, ww, cc, si, sum_frames, "map")
    axes = s["axes"]
    env.check([a["name"] for a in axes] == ([] if sum_frames else ["Frame"]) + ["y", "x", "Energy"], "names of the axes")
    env.check([a["size"] for a in axes] == list(data.shape), "sizes of the axes")
    env.check([a["navigate"] for a in axes] == [True] * (len(axes) - 1) + [False], "kind of each axis")
    full_scale = 25.6 / 2000.0 * 1e3
    ys, xs = full_scale / base[0], full_scale / base[1]
    env.check(abs(axes[-3]["scale"] - ys) < 1e-12 and abs(axes[-2]["scale"] - xs) < 1e-12, "pixel size")
    env.check(abs(axes[-3]["offset"] - my * ys) < 1e-9 and abs(axes[-2]["offset"] - mx * xs) < 1e-9, "offsets follow the shifts")
    env.check(abs(axes[-1]["offset"] - (B - A * digz)) < 1e-12 and abs(axes[-1]["scale"] - A * rebin) < 1e-12, "energy calibration")
    if not sum_frames:
        env.check(abs(axes[0]["scale"] - 0.5 * w * h / 1e3) < 1e-12, "time of a frame")
    if em and len(out) > 1:
        d = env.nd(out[1]["data"])
        compare(env, d, hh, ww, 0, ei, sum_frames, "image")
        ax = out[1]["axes"]
        env.check([a["size"] for a in ax] == list(d.shape), "sizes of the axes of the image")
    st = s["original_metadata"]["jeol_pts_frame_start_index"]
    for i in range(min(len(st), n)):
        env.check(int(st[i]) in (starts[i], -1), "start of each frame")
    if load:
        env.check(int(st[load[0]]) == starts[load[0]], "start of the first frame loaded")
    if shifts is not None:
        env.check(np.array_equal(np.asarray(kw["frame_shifts"]), np.asarray(given)), "the shifts given are unchanged")
        got = s["original_metadata"]["jeol_pts_frame_shifts"]
        for i in load:
            env.check([int(v) for v in got[i]] == [sh3[i][0] - my, sh3[i][1] - mx, sh3[i][2]], "shifts of each frame")
    env.cover("read")


def expect_frame(env, frame, wn, hn, rebin, shifts, i, my, mx, em):
    sh = shifts[i] if shifts is not None else (0, 0, 0)
    ev = []
    for y, line in frame:
        for x, evs in line:
            for k, v in evs:
                yy, xx = y // hn + sh[0] - my, x // wn + sh[1] - mx
                if k == "b" and not em:
                    ev.append((yy, xx, v // rebin + sh[2], 1))
                elif k == "a" and em:
                    ev.append((yy, xx, 0, v))
    return ev


def h_range(env, n, dtype, top):
    """n counts in one channel: counted, or refused when the data type is too small"""
    from rsciio.jeol._api import file_reader

    b = env.int("b", 0, 4095)
    ch = env.choose("channel", [0, 3])
    env.assume(b // 1024 == ch)
    ev = [("b", ch * 1024 + 5)] * (n - 1) + [("b", b)]
    cells = stream([[(0, [(0, ev), (2048, [])]), (2048, [(0, []), (2048, [("b", 1)])])]])
    p = pts(env, cells, 2, 2, 1)
    out, err = env.attempt(lambda: file_reader(p, rebin_energy=1024, SI_dtype=getattr(np, dtype)))
    if n >= top:
        env.check(isinstance(err, ValueError), "counts beyond the data type are refused")
    else:
        env.check(err is None and env.all(out[0]["data"][0, 0, ch] == n), "every count")
    env.cover("read")


def h_header(env):
    """calibration and metadata from symbolic header values"""
    from rsciio.jeol._api import file_reader

    f = {k: env.float(k) for k in ("az", "el", "res", "rt", "hv", "A", "B")}
    date = env.choose("date", [41000.75, 36526.0, 44561.123])
    cells = stream([[(y * 2048, [(x * 1024, [("b", 5)]) for x in range(4)]) for y in range(2)]])
    hp = env.choose("head_pos", [304, 400])
    digz = env.choose("digz", [0, 96])
    mag = env.choose("mag", [100.0, 50000.0])
    p = pts(env, cells, 4, 2, 1, mag=mag, hv=f["hv"], rt=f["rt"], A=0.01, B=-0.1, digz=digz, date=date, head_pos=hp, pad=env.choose("pad", [0, 6]), tpl=env.choose("tpl", ["T2", "T3"]), det=(f["az"], "EX-230", f["el"], f["res"]))
    out = file_reader(p, rebin_energy=1024)
    s = out[0]
    env.check(len(out) == 1, "only the map")
    mode = "SEM" if f["hv"] <= 30.0 else "TEM"
    md = s["metadata"]
    env.check(list(md["Acquisition_instrument"]) == [mode], "kind of microscope")
    m = md["Acquisition_instrument"][mode]
    env.check(env.same(m["beam_energy"], f["hv"]), "beam energy")
    env.check(m["magnification"] == mag, "magnification")
    e = m["Detector"]["EDS"]
    env.check(env.all(env.same(e["azimuth_angle"], f["az"]), env.same(e["elevation_angle"], f["el"]), env.same(e["energy_resolution_MnKa"], f["res"]), env.same(e["real_time"], f["rt"])), "detector")
    env.check(e["detector_type"] == "EX-230", "detector type")
    t = dtm.datetime(1899, 12, 30) + dtm.timedelta(days=date)
    env.check(md["General"]["date"] == t.date().isoformat() and md["General"]["time"] == t.time().isoformat(), "date and time")
    env.check(md["Signal"]["signal_type"] == "EDS_" + mode, "signal type")
    env.check(abs(s["axes"][-1]["offset"] - (-0.1 - 0.01 * digz)) < 1e-12, "energy offset")
    env.cover(mode)


def h_tree(env, order):
    """every value of a header under its name"""
    from rsciio.jeol._api import _parsejeol

    vals = {
        "B": (1, "<B", 1), "H": (2, "<H", 2), "i": (3, "<i", 4), "f": (4, "<f", 4), "d": (5, "<d", 8),
        "B2": (6, "<B", 3), "H2": (7, "<H", 3), "i2": (8, "<i", 3), "f2": (9, "<f", 2), "d2": (10, "<d", 2),
    }
    d, ref = {}, {}
    for k, (t, f, n) in vals.items():
        n = n if t > 5 else 1
        if f[-1] in "fd":
            xs = [env.float("%s_%d" % (k, i), f[-1]) for i in range(n)]
        else:
            lo, hi = {"B": (0, 255), "H": (0, 65535), "i": (-(2**31), 2**31 - 1)}[f[-1]]
            xs = [env.int("%s_%d" % (k, i), lo, hi) for i in range(n)]
        d[k] = (t, f, xs)
        ref[k] = xs
    yes = env.bool("yes")
    d["flag"] = (65553, "<B", [env.ite(yes, 1, 0)])
    d["text"] = "hello"
    d["list"] = (13, "<B", list(b"a b\0c\0"))
    d["empty"] = {}
    items = list(d.items())
    if order:
        items = items[::-1]
    half = len(items) // 2
    t = {"first": {"inner": dict(items[:half]), ("PARAMPAGE7", "SEM"): {"in page": 1.5}}, ("Elem", (14, "<H", (3,))): {"leaf": 2.5}, ("CountRate", (5, "<d", (7.5,))): {"n": (3, "<i", [4])}, "second": dict(items[half:])}
    cells = tree(env, t) + [255] + [0xEE] * 8
    fd = env.fileobj(cells) if env.symbolic else open(env.file("tree", cells), "rb")
    g = _parsejeol(fd)
    env.check(fd.tell() == len(cells) - 8, "the end of the tree")
    fd.close()
    env.check(list(g) == ["first", "Elem", "CountRate", "second"], "groups in order")
    env.check(list(g["first"]) == ["inner", "PARAMPAGE7_SEM"] and g["first"]["PARAMPAGE7_SEM"] == {"in page": 1.5}, "pages by their name")
    env.check(g["Elem"] == {"index": 3, "leaf": 2.5} and g["CountRate"] == {"value": 7.5, "n": 4}, "values of groups")
    leaf = dict(g["first"]["inner"], **g["second"])
    env.check(set(leaf) == set(d), "every name")
    for k, xs in ref.items():
        got = leaf[k]
        if len(xs) == 1:
            env.check(env.same(got, xs[0]), "value %s" % k)
        else:
            env.check(len(got) == len(xs), "length of %s" % k)
            env.check(env.all(*[env.same(a, b) for a, b in zip(got, xs)]), "values of %s" % k)
    env.check(leaf["text"] == "hello" and leaf["list"] == ["a b", "c"] and leaf["empty"] == {}, "texts")
    env.check(leaf["flag"] == yes, "flag")
    env.cover("tree")


def image(env, name, w, h, px, hv, mag, title, date):
    t = tree(env, {
        "Image": {"Size": (8, "<i", [w, h]), "Bits": (6, "<B", px), "Created": date, "Title": title},
        "Instrument": {"ScanSize": 25.6, "Mag": mag, "AccV": hv},
    }) + [255]
    pos = 100
    out = list(env.pack("<I", 52)) + list(b"JED-2200:IMAGE".ljust(32, b"\0")) + list(env.pack("<III", 48, 4, pos))
    out += [0xEE] * (pos + 12 - len(out)) + t
    return env.file(name, out)


def h_img(env, w, h, ext):
    from rsciio.jeol._api import file_reader

    px = [env.int("p%d" % i, 0, 255) for i in range(w * h)]
    hv = env.float("hv")
    mag = env.choose("mag", [500.0, 25000.0])
    p = image(env, "a." + ext, w, h, px, hv, mag, "view 1", 41000.75)
    out = file_reader(p)
    s = out[0]
    env.check(len(out) == 1 and tuple(s["data"].shape) == (h, w) and s["data"].dtype == np.uint8, "shape and data type")
    env.check(env.all(*[s["data"][y, x] == px[y * w + x] for y in range(h) for x in range(w)]), "every pixel")
    axes_match(env, s)
    sc = 25.6 / mag * 1e3
    env.check([a["name"] for a in s["axes"]] == ["y", "x"], "names")
    env.check(abs(s["axes"][0]["scale"] - sc / h) < 1e-9 and abs(s["axes"][1]["scale"] - sc / w) < 1e-9, "pixel size")
    mode = "SEM" if hv <= 30.0 else "TEM"
    m = s["metadata"]
    env.check(env.same(m["Acquisition_instrument"][mode]["beam_energy"], hv) and m["Acquisition_instrument"][mode]["magnification"] == mag, "instrument")
    env.check(m["General"]["title"] == "view 1" and m["General"]["date"] == "2012-04-01" and m["General"]["time"] == "18:00:00", "title and date")
    env.cover(mode)


def spectrum(env, name, counts, f, elems, quanti, texts=("sp", "me")):
    P = env.pack
    d = lambda x: list(P("<d", x))
    i = lambda x: list(P("<i", x))
    hh = lambda x: list(P("<H", x))
    st = lambda s, n: list(s.encode().ljust(n, b"\0"))
    o = i(1) + [0] * 6 + d(41000.75) + st(texts[0], 80) + st(texts[1], 32)
    o += i(1) + [c for k in range(10) for c in d(float(k))] + i(7) + d(-1.0)
    for k in ("Esc", "Fnano F", "E Noise", "CH Res", "live time", "real time", "DeadTime", "CountRate"):
        o += d(f[k])
    o += i(3) + d(1.0) + d(2.0) + d(f["CountRate value"]) + d(-2.0) + i(4) + d(3.0) + d(4.0) + d(f["DeadTime value"]) + d(-3.0)
    o += d(f["CoefA"]) + d(f["CoefB"]) + st("Live Time", 32) + i(9) + d(-4.0) + st("T3", 32) + i(len(counts))
    for c in counts:
        o += i(c)
    o += i(5)
    o += i(2) + hh(1) + hh(6)
    o += i(len(elems))
    for name_, z, lo, hi, en, lines in elems:
        o += i(2) + hh(z) + i(1) + i(0) + hh(lo) + hh(hi) + [0] * 14 + d(en) + d(0.0) * 3 + st(name_, 32) + i(0) + i(len(lines))
        for ln, le in lines:
            o += i(1) + d(le) + hh(z) + [len(name_) + 1] + st(name_, len(name_) + 1) + [len(ln) + 1] + st(ln, len(ln) + 1) + i(1)
    o += i(len(quanti))
    if quanti:
        o += i(0) * 3 + d(0.0) + i(0) * 2
        for q, z, en, m1, er, at, m2, cn in quanti:
            o += i(2) + hh(z) + i(1) + i(0) + d(en) + d(0.0) + d(m1) + d(er) + d(at) + st(q, 16) + d(m2) + d(0.5) + d(cn) + d(0.0) * 2 + i(0) * 2 + d(0.0)
    o += i(5) + st("EX-24", 16) + st("JSM", 16) + st("P1", 16) + d(f["AccKV"]) + d(f["AccNA"]) + [0] * 38
    for k in ("MnKaRES", "WorkD", "InsD", "XtiltAng", "TakeAng", "IncAng"):
        o += d(f.get(k, 1.0))
    o += i(0) + d(25.6)
    for k in range(5):
        o += hh(k)
    o += d(1.0) + d(f["DirAng"]) + d(2.0) + d(f["ElevAng"]) + d(3.0) + st("Be", 4) + hh(4) + d(5.0) + st("", 16)
    for k in range(6):
        o += hh(k)
    for k in range(7):
        o += d(float(k))
    o += st("Si", 4) + hh(14) + d(1.0) + d(2.0) + d(3.0)
    return env.file(name, o)


NAMES = ("Esc", "Fnano F", "E Noise", "CH Res", "live time", "real time", "DeadTime", "CountRate", "CountRate value", "DeadTime value", "CoefA", "CoefB", "AccKV", "AccNA", "MnKaRES", "DirAng", "ElevAng", "WorkD", "TakeAng")


def h_eds(env, n, ne, nq, nl):
    from rsciio.jeol._api import file_reader

    f = {k: env.float(k) for k in NAMES}
    counts = [env.int("c%d" % i, -(2**31), 2**31 - 1) for i in range(n)]
    els = [("El%d" % k, env.int("z%d" % k, 1, 99), env.int("lo%d" % k, 0, 65535), env.int("hi%d" % k, 0, 65535), env.float("en%d" % k), [("K%d" % j, env.float("le%d_%d" % (k, j))) for j in range(nl)]) for k in range(ne)]
    qs = [("Q%dO" % k, env.int("qz%d" % k, 1, 99)) + tuple(env.float("q%d_%d" % (k, j)) for j in range(6)) for k in range(nq)]
    out = file_reader(spectrum(env, "a.eds", counts, f, els, qs))
    s = out[0]
    env.check(len(out) == 1 and tuple(s["data"].shape) == (n,), "shape")
    env.check(env.all(*[a == b for a, b in zip(s["data"], counts)]), "every channel")
    a = s["axes"][0]
    env.check(a["size"] == n and env.same(a["scale"], f["CoefA"]) and env.same(a["offset"], f["CoefB"]) and a["units"] == "keV", "energy axis")
    mode = "SEM" if f["AccKV"] <= 30.0 else "TEM"
    m = s["metadata"]["Acquisition_instrument"]
    env.check(list(m) == [mode] and env.same(m[mode]["beam_energy"], f["AccKV"]), "beam energy")
    e = m[mode]["Detector"]["EDS"]
    for k, v in (("azimuth_angle", "DirAng"), ("elevation_angle", "ElevAng"), ("energy_resolution_MnKa", "MnKaRES"), ("live_time", "live time")):
        env.check(env.same(e[k], f[v]), "detector: " + k)
    env.check(e["detector_type"] == "EX-24" and s["metadata"]["Signal"]["signal_type"] == "EDS_" + mode, "detector type")
    env.check(s["metadata"]["General"]["date"] == "2012-04-01" and s["metadata"]["General"]["time"] == "18:00:00", "date")
    om = s["original_metadata"]
    for k in NAMES[:12]:
        env.check(env.same(om["Header"][k], f[k]), "header: " + k)
    for k in NAMES[12:]:
        env.check(env.same(om["Footer"]["Parameters"][k], f[k]), "parameter: " + k)
    if ne:
        se = om["Footer"]["Selected elements"]
        env.check(list(se) == [x[0] for x in els], "selected elements")
        for name, z, lo, hi, en, lines in els:
            g = se[name]
            env.check(env.all(g["Z"] == z, g["Roi_min"] == lo, g["Roi_max"] == hi, env.same(g["Energy"], en)), "region of each element")
            env.check(list(g["Lines"]) == [name + "_" + l for l, _ in lines], "lines of each element")
            for l, le in lines:
                env.check(env.same(g["Lines"][name + "_" + l]["energy"], le), "energy of each line")
    if nq:
        q = om["Footer"]["Quanti"]
        env.check(list(q) == [x[0] for x in qs], "quantification")
        for x in qs:
            g = q[x[0]]
            env.check(env.all(g["Z"] == x[1], *[env.same(g[k], v) for k, v in zip(("Energy", "Mass1 (%)", "Error", "Atom (%)", "Mass2 (%)", "Counts"), x[2:])]), "values of the quantification")
    env.cover(mode)


def h_asw(env, names):
    """every file of the workspace, in order"""
    import os

    from rsciio.jeol._api import file_reader

    px = {}
    f = {k: 1.0 for k in NAMES}
    info = {}
    for k, (s, v, d, ext) in enumerate(names):
        name = os.path.join("Sample%d" % s, "%02d_View" % v, "f%d.%s" % (k, ext))
        os.makedirs(os.path.dirname(env.path(name)), exist_ok=True)
        c = px[k] = env.int("c%d" % k, 0, 255)
        if ext == "eds":
            spectrum(env, name, [1, c, 3], f, [], [])
        elif ext == "img":
            image(env, name, 2, 1, [c, 7], 15.0, 500.0, "t%d" % k, 41000.75)
        info.setdefault(str(s), {}).setdefault(str(v), {})[str(d)] = {"Filename": name.replace(os.sep, "\\"), "Keyword": "k%d" % k}
    t = tree(env, {"SampleInfo": {s: {"ViewInfo": {v: {"ViewData": d} for v, d in vs.items()}} for s, vs in info.items()}}) + [255]
    out = file_reader(env.file("all.asw", [0] * 12 + t))
    want = [k for k, x in sorted(enumerate(names), key=lambda y: y[1][:3]) if x[3] != "txt"]
    env.check(len(out) == len(want), "one signal for each file")
    for s, k in zip(out, want):
        env.check((s["data"][1] if names[k][3] == "eds" else s["data"][0, 0]) == px[k], "data of each file")
        env.check(s["original_metadata"]["asw_viewdata"]["Keyword"] == "k%d" % k, "entry of each file")
    env.cover("asw")


E1 = {(0, 0, 0): 2, (0, 1, 2): 1}
E2 = {(0, 0, 0): 1, (0, 1, 2): 1, (1, 0, 1): 1, (1, 1, 0): 2}
FN = ["rsciio.jeol._api._read_pts", "_readcube", "_readframe_dense", "_readframe_lazy", "_skip_frame", "_parsejeol"]


def harnesses(tier):
    hs = []
    deep = tier != "quick"

    def m(name, **k):
        a = dict(w=4, h=2, n=2, em=True, kind="full", events=E2, rebin=1024, lazy=False, sum_frames=True, only_valid=True)
        a.update(k)
        hs.append(H("map " + name, h_map, a, 240, FN, "%d frames of %dx%d, energies and image values symbolic" % (a["n"], a["w"], a["h"]), ["read"]))

    for lazy in (False, True):
        for sf in (True, False):
            t = ("lazy " if lazy else "") + ("sum" if sf else "frames")
            b = dict(lazy=lazy, sum_frames=sf)
            m(t, **b)
            m(t + " no image", em=False, **b)
            m(t + " tall", w=2, h=4, events={(0, 3, 1): 1, (1, 2, 0): 1}, **b)
            for kind in ("half", "short"):
                for ov in (True, False):
                    m("%s %s %s" % (t, kind, "valid" if ov else "all"), kind=kind, only_valid=ov, **b)
            m(t + " incomplete, no image", kind="half", em=False, **b)
            m(t + " one incomplete frame", n=1, kind="half", only_valid=False, events=E1, **b)
            m(t + " downsample", w=4, h=4, ds=2, events=E2, **b)
            m(t + " downsample xy", w=4, h=2, ds=(4, 2), **b)
            m(t + " list", n=3, frame_list=[2, 0], events={(0, 0, 0): 1, (1, 0, 0): 1, (2, 1, 3): 1}, **b)
            m(t + " list, lines marked again", n=3, frame_list=[2, 1], again=True, events={(0, 0, 0): 1, (1, 0, 0): 2, (2, 1, 3): 1}, **b)
            m(t + " shift of an incomplete frame", shifts=[(0, 1), (1, 0)], h=4, n=2, sweep=1, kind="half", only_valid=False, **b)
            m(t + " list one", n=3, frame_list=[1], events={(0, 0, 0): 1, (1, 0, 0): 2, (2, 1, 3): 1}, **b)
            m(t + " list repeated", frame_list=[0, 1, 0, 0], events={(0, 0, 0): 1, (1, 1, 3): 1}, **b)
            m(t + " list known starts", n=3, frame_list=[1, 2], known_starts=True, events={(0, 0, 0): 1, (1, 0, 0): 1, (2, 1, 3): 1}, **b)
            m(t + " shift", shifts=[(0, 1), (1, 0)], h=4, **b)
            m(t + " shift energy", shifts=[(0, 1, -1), (-1, 0, 1)], h=4, **b)
            m(t + " shift list", n=3, shifts=[(0, 1), (1, 0), (0, -1)], frame_list=[1], events={(1, 0, 0): 2}, **b)
            m(t + " sweeps fewer than counted", sweep=1, **b)
            m(t + " sweeps more than counted", sweep=4, **b)
            m(t + " no events in a frame", events=E1, **b)
            m(t + " cutoff", rebin=512, cutoff=14.0, events=E1, n=1, **b)
            if deep:
                m(t + " three", n=3, w=4, h=4, events={(0, 0, 0): 2, (1, 1, 1): 2, (2, 3, 3): 2}, rebin=512, **b)
    m("many samples", w=8, h=8, n=1, ds=(8, 8), low=3500, events={}, rebin=2048)
    m("many samples, few", w=4, h=8, n=1, ds=(4, 4), low=3900, events={}, rebin=2048)
    m("a frame many times", w=2, h=2, n=1, sweep=1, low=3900, frame_list=[0] * 20, events={(0, 0, 0): 1}, rebin=2048)
    m("many frames", w=2, h=2, n=18, low=3000, events={(0, 0, 0): 1}, rebin=2048)
    for n in (126, 127, 128):
        hs.append(H("range %d" % n, h_range, dict(n=n, dtype="int8", top=127), 120, FN, "a symbolic energy among the counts of one channel", ["read"]))
    m("int16", dtype="int16", events={(0, 0, 0): 4})
    hs.append(H("header", h_header, {}, 120, FN, "every instrument value", ["SEM", "TEM"]))
    for o in (0, 1):
        hs.append(H("tree %d" % o, h_tree, dict(order=o), 60, ["_parsejeol"], "every type of value, nested groups", ["tree"]))
    for w, h, ext in ((3, 2, "img"), (2, 3, "map"), (4, 4, "img")):
        hs.append(H("image %dx%d %s" % (w, h, ext), h_img, dict(w=w, h=h, ext=ext), 60, ["_read_img", "_parsejeol"], "every pixel", ["SEM", "TEM"]))
    for n, ne, nq, nl in ((4, 0, 0, 0), (3, 2, 2, 2), (2, 1, 0, 1), (2, 0, 1, 0)):
        hs.append(H("spectrum %d %d %d %d" % (n, ne, nq, nl), h_eds, dict(n=n, ne=ne, nq=nq, nl=nl), 90, ["_read_eds"], "every channel and value", ["SEM", "TEM"]))
    for k, ns in enumerate(([(0, 0, 0, "img"), (0, 0, 1, "eds")], [(0, 0, 0, "eds"), (0, 1, 0, "img"), (1, 0, 0, "eds"), (1, 0, 1, "img")], [(0, 0, 0, "img"), (0, 0, 1, "txt"), (0, 0, 2, "eds")])):
        hs.append(H("workspace %d" % k, h_asw, dict(names=ns), 60, ["_read_asw"], "every file", ["asw"]))
    return hs
