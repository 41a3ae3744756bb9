"""Ripple: write/read round trip and reading of arbitrary rpl/raw pairs."""
from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "dimensions and dtype are concrete per harness; every data byte and every calibration or instrument value is symbolic (finite binary64)",
    "decimal formatting of a float followed by parsing is the identity (Python's repr guarantee); the text layout itself is executed",
    "titles, units and names are concrete strings without tab or semicolon",
]


def roundtrip(env, shape, nav, dtype, lazy, stype="", first=None, chunks="auto"):
    from rsciio.ripple import file_reader, file_writer

    data = env.array("d", shape, dtype)
    n = len(shape)
    sc = [env.float(f"sc{i}") for i in range(n)]
    of = [env.float(f"of{i}") for i in range(n)]
    un = ["nm", "mm", "eV"][-n:]
    nm = ["alpha", "beta", "gamma"][-n:]
    sig = signal(data, nav, sc, of, un, nm, title="a title", signal_type=stype,
                 md={"General": {"date": "2020-01-02", "time": "03:04:05"}})
    if first is not None:
        # the spectral / stack axis is not where the format stores it
        for i, a in enumerate(sig["axes"]):
            a["navigate"] = (i != first) if nav == n - 1 else (i == first)
    vals = {}
    if stype == "EELS":
        vals = {"beam_energy": env.float("be"), "convergence_angle": env.float("ca")}
        col = env.float("col")
        sig["metadata"]["Acquisition_instrument"] = {"TEM": dict(vals, Detector={"EELS": {"collection_angle": col}})}
    if stype == "EDS_TEM":
        v = {k: env.float(k) for k in ("elevation_angle", "azimuth_angle", "live_time", "energy_resolution_MnKa")}
        be, ta = env.float("be"), env.float("tilt")
        sig["metadata"]["Acquisition_instrument"] = {"TEM": {"beam_energy": be, "Stage": {"tilt_alpha": ta}, "Detector": {"EDS": dict(v)}}}
    # ev-per-chan is a rounded hint, only written for spectra; the exact scale is stored beside it
    fn = env.path("a.rpl")
    if nav == n - 1:
        env.assume(abs(sc[n - 1 if first is None else first]) < 1e12)
    file_writer(fn, sig)
    out = file_reader(fn, lazy=lazy, chunks=chunks)[0]
    d = env.nd(out["data"])
    axes = list(range(n))
    if first is not None:
        axes.remove(first)
        axes = axes + [first] if nav == n - 1 else [first] + axes
        data = data.transpose(axes)
    keep = [i for i in range(n) if shape[axes[i]] > 1]
    env.check(tuple(d.shape) == tuple(shape[axes[i]] for i in keep), "shape (without length-one axes)")
    env.check(env.same_array(d, data.reshape(d.shape)), "every value survives")
    axes_match(env, out)
    for j, i in enumerate(keep):
        a = out["axes"][j]
        k = axes[i]
        env.check(env.all(env.same(a["scale"], sc[k]), env.same(a["offset"], of[k])), "scale and offset survive")
        env.check((a["units"], a["name"]) == (un[k], nm[k]), "units and name survive")
        # a single channel or a single image is stored as an image
        depth = shape[axes[-1]] if nav == n - 1 else shape[axes[0]] if n == 3 else 1
        env.check(bool(a["navigate"]) == (sig["axes"][k]["navigate"] if depth > 1 else False), "navigation role survives")
    m = out["metadata"]
    env.check((dget(m, "General.title"), dget(m, "General.date"), dget(m, "General.time"), dget(m, "Signal.signal_type"))
              == ("a title", "2020-01-02", "03:04:05", stype), "general metadata survives")
    t = dget(m, "Acquisition_instrument.TEM", {})
    if stype == "EELS":
        env.check(env.all(env.same(t["beam_energy"], vals["beam_energy"]), env.same(t["convergence_angle"], vals["convergence_angle"]),
                          env.same(t["Detector"]["EELS"]["collection_angle"], col)), "EELS conditions survive")
    if stype == "EDS_TEM":
        env.check(env.all(env.same(t["beam_energy"], be), env.same(t["Stage"]["tilt_alpha"], ta),
                          *[env.same(t["Detector"]["EDS"][k], v[k]) for k in v]), "EDS conditions survive")
    env.cover("read back")


def layout(env, record_by, dtype, order, dims, lazy, calib):
    """an independently written rpl/raw pair"""
    from rsciio.ripple import file_reader

    w, h, dp = dims
    off = env.int("offset", 0, 3) * np.dtype(dtype).itemsize
    kind = {"f": "float", "u": "unsigned", "i": "signed"}[np.dtype(dtype).kind]
    nb = np.dtype(dtype).itemsize
    sc = {k: env.float("s" + k) for k in ("width", "height", "depth")}
    of = {k: env.float("o" + k) for k in ("width", "height", "depth")}
    ev = env.float("ev")
    lines = [f"key\tvalue", f"width\t{w}", f"height\t{h}", f"depth\t{dp}", f"offset\t{off}", f"data-length\t{nb}",
             f"data-type\t{kind}", f"byte-order\t{order}", f"record-by\t{record_by}"]
    if calib == "full":
        for k in sc:
            lines += [f"{k}-scale\t{sc[k]}", f"{k}-origin\t{of[k]}", f"{k}-units\t{k}unit", f"{k}-name\tn{k}"]
        lines += [f"ev-per-chan\t{ev}"]
    elif calib == "ev":
        lines += [f"ev-per-chan\t{ev}"]
    with open(env.path("b.rpl"), "w", encoding="latin-1") as f:
        f.write(";comment\n" + "\n".join(lines) + "\n")
    e = {"little-endian": "<", "big-endian": ">", "dont-care": "="}[order]
    n = w * h * dp
    body = env.bytes("d", n * nb)
    if env.symbolic:
        k = off if isinstance(off, int) else off.__index__()
    else:
        k = off
    cells = [255] * k + body
    env.file("b.raw", cells)
    out = file_reader(env.path("b.rpl"), lazy=lazy)[0]
    d = env.nd(out["data"])
    ref = env.from_cells(body, np.dtype(dtype).newbyteorder(e))
    shp = {"vector": (h, w, dp), "image": (dp, h, w), "dont-care": (h, w)}[record_by]
    nm = {"vector": ("height", "width", "depth"), "image": ("depth", "height", "width"), "dont-care": ("height", "width")}[record_by]
    keep = [i for i in range(len(shp)) if shp[i] > 1]
    env.check(tuple(d.shape) == tuple(shp[i] for i in keep), "shape from width, height, depth")
    env.check(env.same_array(d.ravel(), ref), "value order is the raw file's")
    axes_match(env, out)
    for j, i in enumerate(keep):
        a, k = out["axes"][j], nm[i]
        if calib == "full":
            env.check(env.all(env.same(a["scale"], sc[k]), env.same(a["offset"], of[k])), "calibration comes from its own keys")
            env.check((a["name"], a["units"]) == ("n" + k, k + "unit"), "name and units come from their own keys")
        else:
            env.check(a["name"] == k, "default axis name")
            if k == "depth" and calib == "ev":
                env.check(env.same(a["scale"], ev), "depth scale falls back to ev-per-chan")
        nav = {"vector": k != "depth", "image": k == "depth", "dont-care": False}[record_by]
        env.check(bool(a["navigate"]) == nav, "navigation role follows record-by")
    env.cover("read")


def harnesses(tier):
    fn = ["ripple.file_writer", "ripple.file_reader", "ripple.parse_ripple", "ripple.read_raw", "ripple.write_rpl", "ripple.write_raw",
          "utils._distributed.memmap_distributed", "utils._distributed.slice_memmap", "utils._distributed.get_chunk_slice"]
    hs = []
    B = "all data bytes and calibrations symbolic"
    dts = ["uint8", "uint16", "int32", "int64", "float32", "float64", ">u2", ">i4", ">f4", ">f8", "<u2", ">i8"]
    for i, dt in enumerate(dts):
        hs.append(H(f"rt spectrum 3D {dt}", roundtrip, dict(shape=(2, 3, 4), nav=2, dtype=dt, lazy=bool(i % 2)), 90, fn, "2x3x4, " + B, ["read back"]))
        hs.append(H(f"rt image 3D {dt}", roundtrip, dict(shape=(2, 3, 4), nav=1, dtype=dt, lazy=not (i % 2)), 90, fn, "2x3x4, " + B, ["read back"]))
    for sh, nav in [((5,), 0), ((3, 4), 1), ((3, 4), 0), ((1, 3, 4), 2), ((3, 1, 4), 2), ((4, 1, 3), 1), ((4, 3, 1), 1), ((1, 3, 4), 1), ((1, 1, 4), 2), ((1, 4), 1),
                    ((300, 2), 0), ((1, 4), 0), ((4, 1), 0), ((3, 4, 1), 2), ((4, 1), 1), ((2, 260), 1)]:
        for lazy in (False, True):
            hs.append(H(f"rt {sh} nav={nav} lazy={lazy}", roundtrip, dict(shape=sh, nav=nav, dtype="uint16", lazy=lazy), 90, fn, f"{sh}, " + B, ["read back"]))
    for first in (0, 1):
        hs.append(H(f"rt spectral axis at {first}", roundtrip, dict(shape=(2, 3, 4), nav=2, dtype="uint16", lazy=False, first=first), 90, fn, "2x3x4, " + B, ["read back"]))
    for first in (1, 2):
        hs.append(H(f"rt stack axis at {first}", roundtrip, dict(shape=(2, 3, 4), nav=1, dtype="uint16", lazy=False, first=first), 90, fn, "2x3x4, " + B, ["read back"]))
    for ch in [(1, 2, 3), (2, 1, 4), (2, 3, 1)]:
        hs.append(H(f"rt chunks {ch}", roundtrip, dict(shape=(2, 3, 4), nav=2, dtype="float32", lazy=True, chunks=ch), 90, fn, "2x3x4", ["read back"]))
    for st in ("EELS", "EDS_TEM"):
        for nav, sh in ((2, (2, 3, 4)), (0, (4,))):
            hs.append(H(f"rt {st} {sh}", roundtrip, dict(shape=sh, nav=nav, dtype="float32", lazy=False, stype=st), 90, fn, B, ["read back"]))
    for rb in ("vector", "image", "dont-care"):
        for j, (dt, order) in enumerate([("u1", "dont-care"), ("u2", "little-endian"), ("i2", "big-endian"), ("i4", "dont-care"), ("f4", "big-endian"), ("f8", "little-endian"), ("i1", "dont-care"), ("u4", "big-endian")]):
            dims = (3, 2, 1) if rb == "dont-care" else [(3, 2, 4), (1, 3, 2), (3, 1, 2), (1, 1, 5)][j % 4]
            hs.append(H(f"layout {rb} {dt} {order} {dims}", layout, dict(record_by=rb, dtype=dt, order=order, dims=dims, lazy=bool(j & 1), calib=["full", "ev", "none"][j % 3]),
                        90, fn, f"dims {dims}; offset 0..3 elements symbolic; " + B, ["read"]))
    return hs
