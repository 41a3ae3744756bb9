"""Quantum Detectors MIB files."""
from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "headers are concrete texts laid out as in recorded files (384 or 768 bytes), pixels are symbolic",
    "np.memmap is modelled as a view of the file's bytes from the offset; the operating system's mapping on replay",
]
F = ["rsciio.quantumdetector._api." + n for n in ("file_reader", "load_mib_data", "MIBProperties.parse_file", "parse_exposures", "parse_timestamps", "parse_hdr_file")] + ["rsciio.utils._distributed.memmap_distributed"]
BITS = {"U08": ">u1", "U16": ">u2", "U32": ">u4"}


def stamp(ns):
    return "2021-05-07T16:51:%02d.%09dZ" % (10 + ns // 10**9, ns % 10**9)


def header(i, h, w, bits, size, ns, exp):
    geo = "   2x2" if size == 768 else "   1x1"
    # the settings of four chips take the header of a quad beyond the length of a single one
    chips = "".join("%03d," % (k % 512) for k in range(27 * 4)) if size == 768 else ""
    s = "MQ1,%06d,%05d,01,%04d,%04d,%s,%s,01,2021-05-07 16:51:10.905800,0.005000,0,0,0,1.2E+2,%sMQ1A,%s,%dns,12," % (i + 1, size, w, h, bits, geo, chips, stamp(ns), exp)
    return list(s.ljust(size).encode())


def build(env, n, shape, bits, size=384, times=None, tail=0):
    h, w = shape
    dt = np.dtype(BITS[bits])
    times = times or list(range(n))
    cells, px, heads = [], [], []
    for i in range(n):
        hd = header(i, h, w, bits, size, times[i], 5000000 + 1000 * i)
        b = env.bytes("p%d" % i, h * w * dt.itemsize)
        heads.append(hd)
        px.append(env.from_cells(b, dt, (h, w)))
        cells += hd + b
    if tail:
        cells += env.bytes("tail", tail)
    return cells, px, heads


def window(n, first, last):
    return list(range(n))[slice(first, last)]


def expect_shape(n, nav, first, last):
    """navigation shape (numpy order) and the frames, or None for anything"""
    idx = window(n, first, last)
    if nav is None:
        return (len(idx),), idx
    want = prod(nav)
    if want > n:  # interrupted
        if first in (None, 0) and len(nav) == 2:
            rows = len(idx) // nav[0]
            return (rows, nav[0]), idx[: rows * nav[0]]
        return (len(idx),), idx
    if len(idx) < want:
        return (len(idx),), idx
    return tuple(nav[::-1]), idx[:want]


def compare(env, d, px, nav, idx, flip, squeeze, what="frame"):
    d = env.nd(d)
    h, w = px[0].shape
    sh = tuple(nav) + (h, w)
    if squeeze:
        sh = tuple(s for s in sh if s != 1)
    env.check(tuple(int(i) for i in d.shape) == sh, "shape")
    d = d.reshape((len(idx), h, w))
    ok = []
    for k, i in enumerate(idx):
        for y in range(h):
            for x in range(w):
                ok.append(d[k, h - 1 - y if flip else y, x] == px[i][y, x])
    env.check(env.all(*ok), "every pixel of every " + what)


def h_load(env, n, shape, bits, size, nav, first, last, how, tail=0):
    """load_mib_data from a path or a buffer"""
    from rsciio.quantumdetector import load_mib_data, parse_exposures, parse_timestamps

    cells, px, heads = build(env, n, shape, bits, size, tail=tail)
    if how == "buffer":
        src = env.tobytes(cells)
    else:
        src = env.file("a.mib", cells)
    kw = dict(navigation_shape=nav, first_frame=first, last_frame=last)
    head = None
    if how == "lazy":
        d = load_mib_data(src, lazy=True, return_mmap=False, **kw)
    elif how == "distributed":
        d = load_mib_data(src, return_mmap=False, **kw)
    else:
        d, head = load_mib_data(src, return_headers=True, **kw)
    shp, idx = expect_shape(n, nav, first, last)
    compare(env, d, px, shp, idx, False, how in ("lazy", "distributed"))
    env.check(np.dtype(d.dtype).newbyteorder("=") == np.dtype(BITS[bits]).newbyteorder("="), "data type")
    if head is not None:
        env.check(tuple(head.shape) == tuple(shp), "one header per frame")
        hs = head.reshape(-1)
        if len(shp) == 1:
            m = env.choose("max", [None, -1, 0, 1, 2, 100])
            kw = {} if m is None else {"max_index": m}
            k = len(idx) if m in (None, -1) else min(m, len(idx))
            env.check(parse_exposures(hs, **kw) == [(5000000 + 1000 * i) / 1e6 for i in idx[:k]], "exposures of the frames")
            env.check(parse_timestamps(hs, **kw) == [stamp(i) for i in idx[:k]], "timestamps of the frames")
    env.cover("load")


def h_read(env, n, shape, bits, size, nav, first, last, lazy, times=None, hdr=None, guess=None, chunks="auto", tail=0):
    from rsciio.quantumdetector import file_reader

    cells, px, heads = build(env, n, shape, bits, size, times=times, tail=tail)
    src = env.file("a.mib", cells)
    if hdr:
        fpt, total = hdr
        env.file("a.hdr", list(("HDR,\t\nTime and Date Stamp (day, mnth, yr, hr, min, s):\t07/05/2021 16:51:10\nFrames in Acquisition (Number):\t%d\nFrames per Trigger (Number):\t%d\nNote:\ta\tb\nEnd\t" % (total, fpt)).encode()))
    out = file_reader(src, lazy=lazy, navigation_shape=nav, first_frame=first, last_frame=last, chunks=chunks)
    env.check(len(out) == 1, "one signal")
    s = out[0]
    eff = nav if nav is not None else guess
    shp, idx = expect_shape(n, eff, first, last)
    compare(env, s["data"], px, shp, idx, True, True)
    axes_match(env, s)
    k = len(s["axes"])
    env.check([a["navigate"] for a in s["axes"]] == [True] * (k - 2) + [False, False], "the last two axes are the signal")
    env.check(all((a["scale"], a["offset"], a["units"], a["name"], a["index_in_array"]) == (1.0, 0.0, "", "", i) for i, a in enumerate(s["axes"])), "axes in pixels")
    g = s["metadata"]["General"]
    t0 = stamp((times or [0])[0])
    env.check((g["date"], g["time"], g["time_zone"]) == ("2021-05-07", t0[11:-1], "UTC"), "date and time of the first frame")
    env.check(g["original_filename"] == "a.mib" and s["metadata"]["Signal"]["signal_type"] == "electron_diffraction", "file name and signal type")
    env.check(abs(s["metadata"]["Acquisition_instrument"]["dwell_time"] - 0.005) < 1e-12, "exposure in seconds")
    m = s["original_metadata"]["mib_properties"]
    env.check((m["assembly_size"], m["head_size"], tuple(m["merlin_size"]), m["dtype"]) == ("single" if size == 384 else "quad", size, tuple(shape), {"U08": "uint8", "U16": "uint16", "U32": "uint32"}[bits]), "detector")
    if hdr:
        env.check(s["original_metadata"]["hdr_file"] == {"Time and Date Stamp (day, mnth, yr, hr, min, s)": "07/05/2021 16:51:10", "Frames in Acquisition (Number)": str(hdr[1]), "Frames per Trigger (Number)": str(hdr[0]), "Note": "a\tb"}, "every line of the hdr file")
    else:
        env.check("hdr_file" not in s["original_metadata"], "no hdr file")
    env.cover("read")


def line_times(per, lines, extra=0):
    out, t = [], 0
    for y in range(lines):
        for x in range(per):
            out.append(t)
            t += 1000000
        t += 7000000
    for x in range(extra):
        out.append(t)
        t += 1000000
    return out


def harnesses(tier):
    hs = []
    deep = tier != "quick"
    S = (2, 3)
    B = "every pixel; the frames, shapes and windows named"
    wins = [(None, None), (1, None), (None, 3), (1, 3), (-2, None), (None, -1), (0, 2), (2, 100)]
    for how in ("mmap", "buffer", "lazy", "distributed"):
        for bits in BITS:
            for size in (384, 768):
                hs.append(H("load %s %s %d" % (how, bits, size), h_load, dict(n=3, shape=S, bits=bits, size=size, nav=None, first=None, last=None, how=how), 60, F, B, ["load"]))
        for f, l in wins:
            hs.append(H("load %s %s:%s" % (how, f, l), h_load, dict(n=4, shape=S, bits="U16", size=384, nav=None, first=f, last=l, how=how), 60, F, B, ["load"]))
        for n, nav, f, l in [(6, (3, 2), None, None), (6, (2, 3), None, None), (6, (6,), None, None), (7, (3, 2), None, None), (7, (3, 2), 1, None), (5, (2, 3), None, None), (4, (3, 2), None, None), (6, (2, 2), 2, None), (6, (2, 2), 1, 5), (6, (3, 2), 1, None), (5, (3, 2), 1, None), (5, (3, 2), None, 4), (6, (1, 6), None, None), (8, (2, 2, 2), None, None), (5, (2, 3), 0, 2)]:
            hs.append(H("load %s %d as %s %s:%s" % (how, n, nav, f, l), h_load, dict(n=n, shape=S, bits="U08", size=384, nav=nav, first=f, last=l, how=how), 60, F, B, ["load"]))
        hs.append(H("load %s incomplete frame" % how, h_load, dict(n=3, shape=(3, 2), bits="U16", size=384, nav=None, first=None, last=None, how=how, tail=100), 60, F, B, ["load"]))
    for lz in (False, True):
        for bits in BITS:
            for size in (384, 768):
                hs.append(H("read %s %d%s" % (bits, size, " lazy" * lz), h_read, dict(n=4, shape=S, bits=bits, size=size, nav=(2, 2), first=None, last=None, lazy=lz), 60, F, B, ["read"]))
        for nm, k in {
            "one frame": dict(n=1, nav=None),
            "uniform": dict(n=4, nav=None, times=[0, 10**6, 2 * 10**6, 3 * 10**6], guess=(1, 4)),
            "lines": dict(n=6, nav=None, times=line_times(3, 2), guess=(3, 2)),
            "lines 2x3": dict(n=6, nav=None, times=line_times(2, 3), guess=(2, 3)),
            "lines jitter": dict(n=8, nav=None, times=[0, 1000000, 2000300, 3000500, 20000000, 21000400, 22000500, 23000500], guess=(4, 2)),
            "lines incomplete": dict(n=7, nav=None, times=line_times(3, 2, 1), guess=(3, 2)),
            "hdr": dict(n=6, nav=None, hdr=(2, 6), guess=(2, 3)),
            "hdr interrupted": dict(n=5, nav=None, hdr=(2, 6), guess=(2, 3)),
            "hdr more": dict(n=7, nav=None, hdr=(3, 6), guess=(3, 2)),
            "hdr and lines": dict(n=6, nav=None, hdr=(1, 6), times=line_times(3, 2), guess=(3, 2)),
            "hdr none": dict(n=4, nav=None, hdr=(0, 0), guess=None),
            "hdr continuous": dict(n=4, nav=None, hdr=(1, 0), times=[0, 10**6, 2 * 10**6, 3 * 10**6], guess=None),
            "hdr window": dict(n=6, nav=None, hdr=(2, 6), guess=(2, 3), first=2),
            "hdr with shape": dict(n=6, nav=(3, 2), hdr=(2, 6)),
            "window": dict(n=6, nav=None, times=line_times(3, 2), guess=(3, 2), first=1, last=4),
            "window with shape": dict(n=7, nav=(2, 2), first=2, last=-1),
            "interrupted": dict(n=5, nav=(2, 4)),
            "column": dict(n=3, nav=(1, 3)),
            "row": dict(n=3, nav=(3, 1)),
            "tall": dict(n=2, nav=(2,), shape=(4, 2)),
            "incomplete frame": dict(n=2, nav=(2,), tail=50),
        }.items():
            a = dict(n=4, shape=S, bits="U16", size=384, first=None, last=None, lazy=lz)
            a.update(k)
            hs.append(H("read %s%s" % (nm, " lazy" * lz), h_read, a, 60, F, B, ["read"]))
    for ch in ((1, 1, 2, 3), (2, 1, 1, 2), ((1, 1), (2, 1), (2,), (1, 2))):
        hs.append(H("read chunks %s" % (ch,), h_read, dict(n=6, shape=S, bits="U16", size=384, nav=(3, 2), first=None, last=None, lazy=True, chunks=ch), 60, F, B, ["read"]))
    return hs
