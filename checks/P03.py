"""TVIPS streams."""
from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "pixel type uint8/uint16/uint32, either byte order in memory; image and scan sizes concrete per harness",
    "General date/time concrete; pint conversion concrete; frame splitting (maximum file size) symbolic",
]
FH = 60


def roundtrip(env, nav, sig, dtype, lazy, split, mode="nm", extra=0, wlazy=False, tz="UTC"):
    import os, time
    os.environ["TZ"] = tz
    time.tzset()
    from rsciio.tvips import file_reader, file_writer

    shape = tuple(nav) + tuple(sig)
    n = prod(nav)
    data = env.array("d", shape, dtype)
    k = np.dtype(dtype).itemsize
    md = {"General": {"date": "2021-03-04", "time": "05:06:07", "time_zone": "UTC"}, "Signal": {}, "Sample": {"note v1.2": {"no": 3}}}
    st = {a: env.float(a, "f") for a in ("x", "y", "z", "tilt_alpha", "tilt_beta")}
    cur = env.float("cur", "f")
    ht = env.int("ht", 0, 2**32 - 1)
    mag = env.int("mag", 1, 2**32 - 1)
    md["Acquisition_instrument"] = {"TEM": {"beam_energy": ht, "beam_current": cur, "Stage": dict(st),
                                            ("magnification" if mode == "nm" else "camera_length"): mag}}
    scale = env.int("scale", 0, 2**31 - 1)
    oy, ox = env.int("oy", 0, 2**31 - 1), env.int("ox", 0, 2**31 - 1)
    axes = [axis("n%d" % i, s, True, i, 5.0 if i == len(nav) - 1 else 3.0, 0.0, "ms") for i, s in enumerate(nav)]
    axes += [axis("dy", sig[0], False, len(nav), scale, oy, mode), axis("dx", sig[1], False, len(nav) + 1, scale, ox, mode)]
    d = data
    if wlazy:
        import dask.array as da
        d = da.from_array(data, chunks=tuple(max(1, s // 2) for s in shape), asarray=False)
    sg = dict(data=d, axes=axes, metadata=md, original_metadata={}, attributes={"_lazy": wlazy})
    rec = FH + extra + prod(sig) * k
    kw = {}
    if split:
        kw["max_file_size"] = env.choose("maxsize", [200, 256 + rec - 1, 256 + rec, 256 + 2 * rec, 256 + 3 * rec + 1]) if wlazy else env.int("maxsize", 200, 256 + n * rec + 50)
    fn = env.path("a_000.tvips")
    file_writer(fn, sg, frame_header_extra_bytes=extra, show_progressbar=False, **kw)
    kr = {}
    if len(nav) > 1:
        kr["scan_shape"] = tuple(nav)
    out = file_reader(fn, lazy=lazy, **kr)[0]
    r = env.nd(out["data"])
    want = shape if nav else (1,) + shape
    env.check(tuple(r.shape) == want, "shape survives")
    env.check(env.same_array(r, data.reshape(want), dtype=False), "every pixel survives, whatever the file splitting")
    env.check(np.dtype(r.dtype).itemsize == k and np.dtype(r.dtype).kind == "u", "pixel type survives")
    axes_match(env, out)
    a = out["axes"]
    env.check(env.all(env.same(a[-1]["scale"], scale), env.same(a[-2]["scale"], scale), env.same(a[-1]["offset"], ox), env.same(a[-2]["offset"], oy)),
              "pixel calibration survives")
    env.check(a[-1]["units"] == mode and a[-2]["units"] == mode, "pixel units survive")
    t = dget(out["metadata"], "Acquisition_instrument.TEM")
    env.check(env.all(env.same(t["beam_energy"], ht), env.same(t["beam_current"], cur), env.same(t["magnification"], mag),
                      *[env.same(t["Stage"][s], st[s]) for s in st]), "beam and stage settings survive")
    env.check((dget(out["metadata"], "General.date"), dget(out["metadata"], "General.time")) == ("2021-03-04", "05:06:07"), "date and time survive")
    if len(nav) == 1 and nav[0] > 1:
        env.check(abs(float(a[0]["scale"]) - 0.005) < 1e-6, "frame interval survives")
    env.cover("read back")


def build(env, dims, counts, hsize, extra, bits, rots=None, mode=2, version=2):
    dy, dx = dims
    v = {k: env.int(k, 0, 2**32 - 1) for k in ("offsetx", "offsety", "pixelsize", "ht", "magtotal")}
    h = env.pack("<IIIIIII", hsize, version, dx, dy, bits, v["offsetx"], v["offsety"])
    h += env.pack("<IIIIII", 1, 1, v["pixelsize"], v["ht"], v["magtotal"], FH + extra) + [0] * 204
    h += [7] * (hsize - len(h))
    ref, files, first = [], [], None
    k = 0
    for fi, c in enumerate(counts):
        cells = list(h) if fi == 0 else []
        for _ in range(c):
            fl = [env.float("f%d" % j, "f") for j in range(8)]
            rot = k + 1 if rots is None else rots[k]
            cells += env.pack("<IIII", k, 1600000000 + k, 0, 0) + env.pack("<f", fl[0]) + env.pack("<II", 3, mode)
            for j in range(1, 6):
                cells += env.pack("<f", fl[j])
            cells += env.pack("<I", rot) + env.pack("<ff", fl[6], fl[7]) + env.bytes("extra", extra)
            px = env.bytes("px", dy * dx * bits // 8)
            cells += px
            ref.append(env.from_cells(px, "<u%d" % (bits // 8), (dy, dx)))
            if first is None:
                first = fl
            k += 1
        env.file("b_%03d.tvips" % fi, cells)
    return env.path("b_000.tvips"), ref, v, first


def layout(env, dims, counts, hsize, extra, bits, lazy, scan=None, start=0, wind=None, hyst=0):
    from rsciio.tvips import file_reader

    fn, ref, v, fl = build(env, dims, counts, hsize, extra, bits)
    kw = {}
    if scan:
        kw = dict(scan_shape=scan, scan_start_frame=start)
        if wind:
            kw.update(winding_scan_axis=wind, hysteresis=hyst)
    out = file_reader(fn, lazy=lazy, **kw)[0]
    d = env.nd(out["data"])
    if scan is None:
        env.check(tuple(d.shape) == (len(ref),) + dims, "all frames of all files")
        for i, r in enumerate(ref):
            env.check(env.same_array(d[i], r), "frame i is the i-th stored frame")
    else:
        env.check(tuple(d.shape) == tuple(scan) + dims, "scan shape as requested")
        ny, nx = scan[-2:]
        for pos in itertools.product(*[range(s) for s in scan]):
            y, x = pos[-2:]
            if wind == "x" and y % 2 == 0:
                xs = nx - 1 - ((x - hyst) % nx)
                ys = y
            elif wind == "y" and x % 2 == 0:
                ys = ny - 1 - ((y - hyst) % ny)
                xs = x
            else:
                ys, xs = y, x
            lead = 0
            for p, s in zip(pos[:-2], scan[:-2]):
                lead = lead * s + p
            env.check(env.same_array(d[pos], ref[start + (lead * ny + ys) * nx + xs]), "scan position shows its own frame")
    axes_match(env, out)
    a = out["axes"]
    env.check(env.all(env.same(a[-1]["offset"], v["offsetx"]), env.same(a[-2]["offset"], v["offsety"]), env.same(a[-1]["scale"], v["pixelsize"])),
              "pixel calibration comes from the header")
    t = dget(out["metadata"], "Acquisition_instrument.TEM")
    env.check(env.all(env.same(t["beam_energy"], v["ht"]), env.same(t["magnification"], v["magtotal"]), env.same(t["beam_current"], fl[0]),
                      env.same(t["Stage"]["x"], fl[1]), env.same(t["Stage"]["y"], fl[2]), env.same(t["Stage"]["z"], fl[3]),
                      env.same(t["Stage"]["tilt_alpha"], fl[4]), env.same(t["Stage"]["tilt_beta"], fl[5]), env.same(t["defocus"], fl[7])),
              "beam and stage settings come from the first frame header")
    env.cover("read")


def auto(env, n, side):
    """scan grid reconstructed from the rotator index"""
    from rsciio.tvips import file_reader

    pre = env.int("pre", 0, 2)
    rots, prev = [], 0
    for i in range(n):
        step = env.int("step", 0, 2)
        prev = env.ite(pre > i, 0, prev + step)
        rots.append(prev)
    env.assume(env.all(rots[-1] == side * side))
    # the scan covers its first position; a scan without idle frames advances at once
    env.assume(env.any(*[r == 1 for r in rots]))
    env.assume(env.any(rots[0] == 0, rots[1] > rots[0]))
    fn, ref, v, fl = build(env, (1, 1), (n,), 256, 0, 8, rots=rots)
    out = file_reader(fn, scan_shape="auto")[0]
    d = out["data"]
    env.check(tuple(d.shape) == (side, side, 1, 1), "square scan")
    for k in range(side * side):
        got = d[k // side, k % side, 0, 0]
        for j in range(n):
            first = env.all(rots[j] == k + 1, *[rots[i] != k + 1 for i in range(j)])
            env.check(env.any(env.not_(first), env.same(got, ref[j][0, 0])), "a scan position shows the first frame carrying its index")
    env.cover("auto")


def harnesses(tier):
    fn = ["tvips.file_writer", "tvips.file_reader", "tvips._get_main_header_from_signal", "tvips._find_auto_scan_start_stop", "tvips._guess_scan_index_grid"]
    hs = []
    add = lambda name, f, p, b="", c=("read",): hs.append(H(name, f, p, 150, fn, b, list(c)))
    for i, dt in enumerate(["uint8", "uint16", ">u2", "uint32"]):
        for nav in ((3,), (2, 3), (2, 2, 2), ()):
            for split in ((False, True) if nav else (False,)):
                add(f"rt {dt} {nav} split={split}", roundtrip, dict(nav=nav, sig=(2, 3), dtype=dt, lazy=(i + len(nav)) % 2 == 1, split=split), "sig 2x3, symbolic pixels and file size limit", ["read back"])
    add("rt other time zone", roundtrip, dict(nav=(2,), sig=(2, 2), dtype="uint16", lazy=False, split=False, tz="XXX-9"), "process time zone UTC+9", ["read back"])
    add("rt diffraction", roundtrip, dict(nav=(2, 2), sig=(2, 2), dtype="uint16", lazy=False, split=False, mode="1/nm"), "", ["read back"])
    add("rt single frame", roundtrip, dict(nav=(1,), sig=(2, 2), dtype="uint16", lazy=False, split=False), "", ["read back"])
    add("rt extra bytes", roundtrip, dict(nav=(5,), sig=(2, 2), dtype="uint16", lazy=False, split=True, extra=7), "", ["read back"])
    add("rt lazy write", roundtrip, dict(nav=(4,), sig=(2, 2), dtype="uint16", lazy=True, split=True, wlazy=True), "", ["read back"])
    add("rt many frames", roundtrip, dict(nav=(300,), sig=(1, 1), dtype="uint8", lazy=False, split=False), "300 frames", ["read back"])
    for lazy in (False, True):
        for counts in ((3,), (2, 2), (3, 1, 2), (1,)):
            add(f"layout {counts} {lazy}", layout, dict(dims=(2, 3), counts=counts, hsize=256, extra=0, bits=16, lazy=lazy))
        add(f"layout extra {lazy}", layout, dict(dims=(3, 2), counts=(2, 1), hsize=300, extra=5, bits=8, lazy=lazy))
        for scan, start in (((2, 3), 0), ((2, 2), 2), ((3, 2), 1), ((2, 2, 2), 0)):
            add(f"layout scan {scan}+{start} {lazy}", layout, dict(dims=(1, 2), counts=(4, 4), hsize=256, extra=0, bits=8, lazy=lazy, scan=scan, start=start))
    for wind in "xy":
        for hyst in (0, 1, 2):
            for scan in ((3, 4), (4, 3), (2, 2, 3)):
                add(f"winding {wind} {hyst} {scan}", layout, dict(dims=(1, 1), counts=(13,), hsize=256, extra=0, bits=8, lazy=False, scan=scan, start=1 if prod(scan) < 13 else 0, wind=wind, hyst=hyst))
    for n, side in ((4, 2), (5, 2), (6, 2)) + (((7, 2),) if tier == "thorough" else ()):
        add(f"auto {n} {side}", auto, dict(n=n, side=side), f"{n} frames, {side}x{side} grid, index steps 0..2, up to 2 idle frames", ["auto"])
    return hs
