"""MountainsMap (.sur/.pro) files."""
from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "zlib is lossless: modelled by stored blocks in the symbolic run, the real zlib on replay",
    "floating-point data are multiples of a step that divides their range exactly (the format stores 32-bit steps); arbitrary floats are quantised and not claimed exact",
    "32-bit integers outside a surface stay within 2**24 (the header offset is single precision)",
    "names, units, comments and dates from fixed sets",
]


def ax(env, name, size, nav, i, units="µm"):
    return dict(name=name, size=size, scale=env.float("scale_" + name, "f"), offset=env.float("offset_" + name, "f"), units=units, navigate=nav, index_in_array=i)


KIND = {
    "profile": ((4,), (0,), ["Width"]),
    "spectrum": ((4,), (0,), ["Wavelength"]),
    "spectra": ((2, 3), (1, 0), ["pos", "Wavelength"]),
    "profiles": ((2, 3), (1, 0), ["time", "Width"]),
    "surface": ((2, 3), (0, 0), ["Height", "Width"]),
    "surfaces": ((2, 2, 3), (1, 0, 0), ["time", "Height", "Width"]),
    "map": ((2, 3, 2), (1, 1, 0), ["Height", "Width", "Energy"]),
}


def roundtrip(env, kind, dtype, compressed, special=False, shape=None, comments=None):
    from rsciio.digitalsurf import file_reader, file_writer

    sh, nav, names = KIND[kind]
    if special and kind in ("surfaces", "profiles"):
        sh = (2,) + (2, 2)[:len(sh) - 1]
    dt = np.dtype(dtype)
    if dt.kind == "i" and dt.itemsize == 4 and kind not in ("surface", "surfaces"):
        lim = 2 ** 24
        data = env.array("d", sh, dtype, -lim, lim)
    else:
        data = env.array("d", sh, dtype)
    axes = [ax(env, n, s, bool(v), i, ["µm", "nm", "s"][i % 3]) for i, (n, s, v) in enumerate(zip(names, sh, nav))]
    for a in axes:
        env.assume(a["scale"] != 0)
    sg = dict(data=data, axes=axes, metadata={"General": {"title": "t", "date": "2020-02-03", "time": "10:11:12"}, "Signal": {"quantity": "Height (nm)"}},
              original_metadata=comments or {})
    fn = env.path("a.sur")
    file_writer(fn, sg, compressed=compressed, is_special=special)
    s = file_reader(fn)[0]
    r = s["data"]
    env.check(tuple(r.shape) == tuple(sh), "shape survives")
    for x, y in zip(r.ravel(), data.ravel()):
        env.check(env.same(x, y), "every integer value survives")
    check_axes(env, s, axes)
    g = s["metadata"]["General"]
    env.check((g["date"], g["time"]) == ("2020-02-03", "10:11:12"), "date and time survive")
    env.check(s["metadata"]["Signal"]["quantity"] == "Height (nm)", "quantity and unit survive")
    if comments:
        env.check(s["original_metadata"]["Object_0_Channel_0"]["Parsed"] == comments, "comments survive")
    env.cover("read back")


def check_axes(env, s, axes):
    axes_match(env, s)
    env.check(len(s["axes"]) == len(axes), "number of axes")
    for a, b in zip(s["axes"], axes):
        env.check(env.all(env.same(a["scale"], b["scale"]), env.same(a["offset"], b["offset"])), "scale and offset of each axis survive")
        env.check((a["name"], a["units"], a["navigate"]) == (b["name"], b["units"], b["navigate"]), "name, units and role of each axis survive")
    env.check(sorted(a["index_in_array"] for a in s["axes"]) == list(range(len(axes))), "axis positions are 0..n-1")


def floats(env, kind, compressed, nan, k):
    """lo + m * 2**k for 32-bit m: stored without loss"""
    from rsciio.digitalsurf import file_reader, file_writer

    sh, nav, names = KIND[kind]
    n = prod(sh)
    top = 2 ** 32 - 1 if not nan else 2 ** 32 - 3
    per = n // sh[0] if kind in ("profiles", "surfaces") else n  # each object of a series has its own range
    m = []
    for o in range(n // per):
        m += [top, 0] + [env.int("m%d_%d" % (o, i), 0, top) for i in range(per - 2)]
    data = np.empty(sh, dtype=float) if not env.symbolic else None
    cells = []
    for i, v in enumerate(m):
        cells += env.pack("<d", v * 2.0 ** k) if not (nan and i % per == 2) else env.pack("<d", float("nan"))
    data = env.from_cells(cells, "<f8", sh)
    axes = [ax(env, nm, s, bool(v), i) for i, (nm, s, v) in enumerate(zip(names, sh, nav))]
    for a in axes:
        env.assume(a["scale"] != 0)
    fn = env.path("a.sur")
    file_writer(fn, dict(data=data, axes=axes, metadata={"General": {}, "Signal": {}}, original_metadata={}), compressed=compressed, is_special=nan)
    s = file_reader(fn)[0]
    r = s["data"].ravel()
    ok = []
    for i, v in enumerate(m):
        if nan and i % per == 2:
            ok.append(r[i] != r[i])
        else:
            ok.append(r[i] == v * 2.0 ** k)
    env.check(env.all(*ok), "representable floating-point values survive")
    check_axes(env, s, axes)
    env.cover("read back")


def constant(env, kind, value, compressed):
    from rsciio.digitalsurf import file_reader, file_writer

    sh, nav, names = KIND[kind]
    v = env.int("v", -1000, 1000) * 0.25 if value is None else value
    data = env.from_cells(env.pack("<d", v) * prod(sh), "<f8", sh)
    axes = [axis(nm, s, bool(q), i) for i, (nm, s, q) in enumerate(zip(names, sh, nav))]
    fn = env.path("a.sur")
    file_writer(fn, dict(data=data, axes=axes, metadata={"General": {}, "Signal": {}}, original_metadata={}), compressed=compressed)
    r = file_reader(fn)[0]["data"]
    env.check(env.all(*[x == v for x in r.ravel()]), "data of one value survive")
    env.cover("read back")


def rgb(env, series, bits, compressed):
    from rsciio.digitalsurf import file_reader, file_writer

    sh = (2, 2, 3) if series else (2, 3)
    k = bits // 8
    dt = np.dtype({"names": ["R", "G", "B"], "formats": ["<u%d" % k] * 3})
    px = env.bytes("px", prod(sh) * 3 * k)
    data = env.from_cells(px, dt, sh)
    names = (["time"] if series else []) + ["Height", "Width"]
    axes = [ax(env, n, s, n == "time", i) for i, (n, s) in enumerate(zip(names, sh))]
    for a in axes:
        env.assume(a["scale"] != 0)
    fn = env.path("a.sur")
    file_writer(fn, dict(data=data, axes=axes, metadata={"General": {}, "Signal": {}}, original_metadata={}), compressed=compressed)
    s = file_reader(fn)[0]
    r = s["data"]
    vals = env.elems(px, "<u%d" % k)
    want = sh + (3,) if series else (3,) + sh
    env.check(tuple(r.shape) == want, "colour axis")
    ok = []
    for p, idx in enumerate(itertools.product(*[range(q) for q in sh])):
        for c in range(3):
            ok.append(r[idx + (c,) if series else (c,) + idx] == vals[3 * p + c])
    env.check(env.all(*ok), "every colour value survives")
    keep = [a for a in s["axes"] if a["size"] != 3 or a["name"] == "Width"]
    for a, b in zip(keep[-2:] if not series else keep[1:3], axes[-2:]):
        env.check(env.all(env.same(a["scale"], b["scale"]), env.same(a["offset"], b["offset"]), a["name"] == b["name"]), "image axes survive")
    env.cover("read back")


def header(env, d):
    """one object header, laid out by hand"""
    p = env.pack
    txt = lambda t, n: list(t.encode("latin-1").ljust(n))
    c = txt(d["sig"], 12) + p("<hHhh", 0, d["nobj"], 1, d["type"]) + txt("obj", 30) + txt("me", 30)
    c += p("<hhhhhf", d["nch"], 0, 0, d.get("special", 0), 0, 0.0) + p("<I", d.get("w", 0)) + p("<h", d["bits"])
    c += p("<ii", d["zmin"], d["zmax"]) + p("<iii", d["nx"], d["ny"], d["nx"] * d["ny"])
    c += p("<fff", d["dx"], d["dy"], d["dz"])
    c += txt("X", 16) + txt("Y", 16) + txt("Z", 16) + txt("mm", 16) + txt("um", 16) + txt("nm", 16) + txt("mm", 16) + txt("um", 16) + txt("nm", 16)
    c += p("<fff", 1.0, 1.0, d.get("ratio", 1.0)) + p("<hhh", 0, 0, 0) + [0] * 12
    c += p("<hhhhhhh", 1, 2, 3, 4, 5, 2006, 0) + p("<f", 0.0)
    body = d["body"]
    c += p("<I", len(body) if d["sig"] == "DSCOMPRESSED" else 0) + [0] * 6
    cm, pv = d.get("comment", ""), d.get("private", [])
    c += p("<hh", len(cm), len(pv)) + [0] * 128
    c += p("<fffff", d["x0"], d["y0"], d["z0"], d.get("dt", 0.0), d.get("t0", 0.0)) + txt("T", 13) + txt("s", 13)
    return c + list(cm.encode()) + list(pv) + list(body)


def body(env, raw, sig, streams):
    if sig != "DSCOMPRESSED":
        return raw
    n = len(raw) // streams
    parts = [raw[i * n:(i + 1) * n if i < streams - 1 else None] for i in range(streams)]
    z = [env.compress(p) for p in parts]
    out = env.pack("<I", streams)
    for a, b in zip(parts, z):
        out += env.pack("<II", len(a), len(b))
    for b in z:
        out += b
    return out


def layout(env, typ, bits, sig, streams=1, special=0, nobj=1, nch=1, w=0, dz=1.0, z0=0.0, ratio=1.0, private=0, zmin=None):
    from rsciio.digitalsurf import file_reader

    ny, nx = (1, 4) if typ in (1, 4) else (2, 2)
    k = bits // 8
    f = {q: env.float(q, "f") for q in ("dx", "dy", "x0", "y0", "dt", "t0")}
    env.assume(f["dt"] != 0)
    z = zmin if zmin is not None else env.int("zmin", -(2 ** (bits - 1)) + 2, 2 ** (bits - 1) - 1)
    cells, raws = [], []
    for o in range(max(nobj, 1) * max(nch, 1)):
        raw = env.bytes("px", nx * ny * max(w, 1) * k)
        raws.append(env.elems(raw, "<i%d" % k))
        t = typ if o == 0 else {4: 1, 5: 2, 12: 10, 18: 12}.get(typ, typ)
        cells += header(env, dict(sig=sig, nobj=nobj, nch=nch, type=t, special=special, bits=bits, zmin=z, zmax=0, nx=nx, ny=ny, w=w, dz=dz, z0=z0, ratio=ratio,
                                  dx=f["dx"], dy=f["dy"], x0=f["x0"], y0=f["y0"], dt=f["dt"], t0=f["t0"], private=[65] * private,
                                  comment="$_A%d\n$k = %d mm\n" % (o, o), body=body(env, raw, sig, streams)))
    s = file_reader(env.file("b.sur", cells))[0]
    r = s["data"]
    shape = {1: (4,), 20: (2, 2), 2: (2, 2), 3: (2, 2), 10: (2, 2), 21: (2, 2, w), 5: (nobj, 2, 2), 4: (nobj, 4), 12: (nch, 2, 2), 18: (nobj, 2, 2, nch)}[typ]
    env.check(tuple(r.shape) == shape, "shape from the header")
    flat = r if typ != 18 else r.transpose(0, 3, 1, 2)
    raw = [v for q in raws for v in q]
    ok = []
    for x, v in zip(flat.ravel(), raw):
        val = (v - z) * (dz / ratio) + z0
        if typ in (2, 5) and dz == 1.0 and ratio == 1.0 and z0 == z:
            val = v
        if special and typ in (1, 4, 20, 21):
            nm = v == z - 2
            ok.append(env.any(env.all(nm, x != x), env.all(env.not_(nm), x == val)))
        elif typ == 3:
            ok.append(x == v)
        else:
            ok.append(x == val)
    env.check(env.all(*ok), "points are (raw - zmin) * spacing / ratio + offset, in order")
    axes_match(env, s)
    named = {a["name"]: a for a in s["axes"] if a["size"] > 0}
    for nm, sc, of, un in (("X", "dx", "x0", "mm"), ("Y", "dy", "y0", "um"), ("T", "dt", "t0", "s")):
        if nm in named:
            env.check(env.all(env.same(named[nm]["scale"], f[sc]), env.same(named[nm]["offset"], f[of]), named[nm]["units"] == un), "axis calibration from its own header fields")
    g = s["metadata"]["General"]
    env.check((g["date"], g["time"], g["authors"]) == ("2006-05-04", "03:02:01", "me"), "date, time and operator from the header")
    om = s["original_metadata"]
    for o in range(max(nobj, 1)):
        for c in range(max(nch, 1)):
            q = o * max(nch, 1) + c
            env.check(om["Object_%d_Channel_%d" % (o, c)]["Parsed"] == {"A%d" % q: {"k": q, "k_units": "mm"}}, "each object's own comment is in its original metadata")
    env.cover("read")


def zones(env, n):
    """private and client zones are stored verbatim"""
    from rsciio.digitalsurf import file_writer

    priv = env.tobytes(env.bytes("p", n))
    cli = env.tobytes(env.bytes("c", n))
    fn = env.path("a.sur")
    file_writer(fn, dict(data=np.arange(6, dtype="int16").reshape(2, 3), axes=[axis("y", 2, False, 0), axis("x", 3, False, 1)], metadata={"General": {}}, original_metadata={}),
                compressed=False, private_zone=priv, client_zone=cli)
    c = env.read_file(fn)
    env.check(len(c) == 512 + n + 12, "file size")
    env.check(env.all(*[a == b for a, b in zip(c[512:512 + n], env.cells(priv))]), "private zone stored verbatim")
    env.cover("written")


def harnesses(tier):
    fn = ["digitalsurf.file_writer", "digitalsurf.file_reader", "DigitalSurfHandler._split_*", "_norm_data", "_norm_float", "_build_workdict", "_pack_data", "_unpack_data", "_build_*",
          "parse_metadata", "_stringify_dict"]
    hs = []
    add = lambda name, f, p, c=("read back",): hs.append(H(name, f, p, 150, fn, "small shapes, symbolic values and calibration", list(c)))
    dts = ["int16", "int32", "uint8", "uint16", "int8", ">i2", ">i4"]
    for i, kind in enumerate(KIND):
        for j, dt in enumerate(dts):
            for comp in (False, True) if tier == "thorough" else (((i + j) % 2 == 0),):
                for sp in (False, True):
                    add(f"rt {kind} {dt} {comp} {sp}", roundtrip, dict(kind=kind, dtype=dt, compressed=comp, special=sp))
        add(f"rt {kind} bool", roundtrip, dict(kind=kind, dtype="bool", compressed=bool(i % 2)))
        for nan in (False, True):
            for k in (0, -3, 5):
                add(f"float {kind} {nan} {k}", floats, dict(kind=kind, compressed=bool(i % 2), nan=nan, k=k))
        for v in (0.0, None):
            add(f"constant {kind} {v}", constant, dict(kind=kind, value=v, compressed=bool(i % 2)))
    add("rt comments", roundtrip, dict(kind="surface", dtype="int16", compressed=True, comments={"A": {"x": 1, "y": 2.5, "y_units": "nm", "z": "abc"}, "B": {"q": -7}}))
    for series in (False, True):
        for bits in (8, 16):
            for comp in (False, True):
                add(f"rgb {series} {bits} {comp}", rgb, dict(series=series, bits=bits, compressed=comp))
    R = ("read",)
    for bits in (16, 32):
        for sig, streams in (("DIGITAL SURF", 1), ("DSCOMPRESSED", 1), ("DSCOMPRESSED", 3)):
            nm = f"{bits} {sig[:2]} {streams}"
            for sp in (0, 1):
                add(f"layout profile {nm} {sp}", layout, dict(typ=1, bits=bits, sig=sig, streams=streams, special=sp, dz=0.5, z0=2.0), R)
                add(f"layout map {nm} {sp}", layout, dict(typ=21, bits=bits, sig=sig, streams=streams, special=sp, w=3 - sp, dz=2.0, z0=-1.5, ratio=0.5), R)
                add(f"layout spectra {nm} {sp}", layout, dict(typ=20, bits=bits, sig=sig, streams=streams, special=sp, dz=0.25, z0=1.0), R)
            add(f"layout surface {nm}", layout, dict(typ=2, bits=bits, sig=sig, streams=streams, dz=0.5, z0=2.0), R)
            add(f"layout surface int {nm}", layout, dict(typ=2, bits=bits, sig=sig, streams=streams, dz=2.0, z0=2.0), R)
            add(f"layout surface raw {nm}", layout, dict(typ=2, bits=bits, sig=sig, streams=streams, dz=1.0, z0=-7.0, zmin=-7), R)
            add(f"layout image {nm}", layout, dict(typ=10, bits=bits, sig=sig, streams=streams, dz=1.0, z0=3.0), R)
            add(f"layout binary {nm}", layout, dict(typ=3, bits=bits, sig=sig, streams=streams, zmin=0), R)
            add(f"layout surfaces {nm}", layout, dict(typ=5, bits=bits, sig=sig, streams=streams, nobj=3, dz=0.5), R)
            add(f"layout profiles {nm}", layout, dict(typ=4, bits=bits, sig=sig, streams=streams, nobj=3, dz=0.5, private=4), R)
            add(f"layout rgb {nm}", layout, dict(typ=12, bits=bits, sig=sig, streams=streams, nch=3, zmin=0), R)
            add(f"layout rgbs {nm}", layout, dict(typ=18, bits=bits, sig=sig, streams=streams, nobj=2, nch=3, zmin=0), R)
    for n in (0, 3, 20):
        add(f"zones {n}", zones, dict(n=n), ("written",))
    return hs
