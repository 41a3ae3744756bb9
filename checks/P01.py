"""Blockfile: write/read round trip and reading of an arbitrary block file."""
from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "scan and diffraction dimensions are concrete per harness (listed in bounds); every pixel byte, header field and calibration is symbolic",
    "the file system is an in-memory byte map during symbolic execution; every counterexample is replayed with real files",
    "pint unit conversion is executed for concrete units only",
]


def blo_axes(shape, sc):
    nav = len(shape) - 2
    names = ["y", "x", "dy", "dx"][-len(shape):]
    return [axis(names[i], s, i < nav, i, sc[i], 0.0, "nm" if i < nav else "cm") for i, s in enumerate(shape)]


def squeezed(shape):
    return tuple(s for s in shape if s != 1)


def roundtrip(env, shape, lazy, navigator="navigator", endianness="<", chunks="auto", wlazy=False):
    from rsciio.blockfile import file_reader, file_writer

    data = env.array("d", shape, "uint8")
    sy, sx = env.float("sy"), env.float("sx")
    om = {"blockfile_header": {
        "Beam_energy": env.int("kv", 0, 2**32 - 1), "Camera_length": env.int("cl", 0, 2**32 - 1),
        "Scan_rotation": env.int("rot", 0, 65535), "DP_rotation": env.int("dprot", 0, 65535),
        "UNKNOWN1": 131141, "Note": "note of the operator"}}
    sig = dict(data=data, axes=blo_axes(shape, [sy, sx, 0.5, 0.5]), original_metadata=om,
               metadata={"General": {"title": "t"}, "Signal": {"signal_type": ""}, "Sample": {"note v1.2": {"no": 3}}}, attributes={"_lazy": False})
    if wlazy:
        import dask.array as da
        sig["attributes"]["_lazy"] = True
        sig["data"] = da.from_array(data, chunks=tuple(max(1, s // 2) for s in shape), asarray=False)
    fn = env.path("a.blo")
    kw = {}
    if navigator == "array":
        kw["navigator"] = env.array("nav", shape[:2], "uint8")
    else:
        kw["navigator"] = navigator
    file_writer(fn, sig, endianness=endianness, show_progressbar=False, **kw)
    out = file_reader(fn, lazy=lazy, endianness=endianness, chunks=chunks)[0]
    d = env.nd(out["data"])
    env.check(tuple(d.shape) == tuple(shape), "shape is the one written")
    env.check(env.same_array(d, data), "every pixel is the one written")
    axes_match(env, out)
    a = out["axes"]
    env.check(env.all(env.same(a[0]["scale"], sy), env.same(a[1]["scale"], sx)), "scan step sizes survive")
    h = out["original_metadata"]["blockfile_header"]
    for k in ("Beam_energy", "Camera_length", "Scan_rotation", "DP_rotation"):
        env.check(h[k] == om["blockfile_header"][k], f"header field {k} survives")
    env.check(h["Note"] == "note of the operator", "note survives")
    env.check(tuple(x["navigate"] for x in a) == (True, True, False, False), "two navigation, two signal axes")
    env.cover("read back")


def layout(env, shape, lazy, off1, off2, endianness="<"):
    """an independently laid out block file"""
    from rsciio.blockfile import file_reader

    ny, nx, p = shape
    e = endianness
    vals = dict(rot=env.int("rot", 0, 65535), srot=env.int("srot", 0, 65535), kv=env.int("kv", 0, 2**32 - 1),
                cl=env.int("cl", 0, 2**32 - 1))
    sx, sy = env.float("sx"), env.float("sy")
    sdp = env.int("sdp", 1, 65535)
    head = list(b"IMGBLO")
    head += env.pack(e + "H", 0x0102)
    head += env.pack(e + "III", off1, off2, 131141)
    head += env.pack(e + "HHHHH", p, vals["rot"], nx, ny, vals["srot"])
    head += env.pack(e + "d", sx) + env.pack(e + "d", sy)
    head += env.pack(e + "I", vals["kv"]) + env.pack(e + "H", sdp) + env.pack(e + "I", vals["cl"])
    head += env.pack(e + "d", 41000.5)
    head += env.bytes("cent", 22 * 8)
    cells = list(head)
    put(cells, off1, env.bytes("vbf", nx * ny))
    pos = off2
    ref = []
    for n in range(ny * nx):
        put(cells, pos, env.bytes("hdr", 6))
        px = env.bytes("px", p * p)
        ref.append(px)
        put(cells, pos + 6, px)
        pos += 6 + p * p
    fn = env.file("b.blo", cells)
    out = file_reader(fn, lazy=lazy, endianness=endianness)[0]
    d = env.nd(out["data"])
    want = (ny, nx, p, p)
    if not lazy:
        env.check(squeezed(d.shape) == squeezed(want), "shape from the header")
        d = d.reshape(want)
    env.check(tuple(d.shape) == want, "shape from the header")
    for y in range(ny):
        for x in range(nx):
            env.check(env.all(*[env.same(d[y, x, i, j], ref[y * nx + x][i * p + j]) for i in range(p) for j in range(p)]),
                      "pattern at (y, x) is frame y*NX+x of the file")
    h = out["original_metadata"]["blockfile_header"]
    env.check(env.all(h["Beam_energy"] == vals["kv"], h["Camera_length"] == vals["cl"], h["Scan_rotation"] == vals["srot"],
                      h["DP_rotation"] == vals["rot"], h["SDP"] == sdp), "header fields come from their offsets")
    env.cover("read")
    if len(squeezed(want)) == 4:
        env.check(env.all(env.same(out["axes"][0]["scale"], sy), env.same(out["axes"][1]["scale"], sx)), "scan steps from SY, SX")


def truncated(env, shape, nframes):
    from rsciio.blockfile import file_reader

    ny, nx, p = shape
    head = list(b"IMGBLO") + env.pack("<H", 0x0102) + env.pack("<III", 512, 600, 1)
    head += env.pack("<HHHHH", p, 0, nx, ny, 0) + env.pack("<dd", 1.0, 1.0) + env.pack("<IHI", 200, 100, 5) + env.pack("<d", 41000.5)
    cells = list(head)
    put(cells, 600, [])
    ref = []
    for n in range(nframes):
        cells += env.bytes("hdr", 6)
        px = env.bytes("px", p * p)
        ref += px
        cells += px
    ref += [0] * (ny * nx * p * p - len(ref))
    out = file_reader(env.file("t.blo", cells))[0]
    d = out["data"]
    env.check(tuple(d.shape) == (ny, nx, p, p), "shape from the header")
    f = d.ravel()
    env.check(env.all(*[env.same(f[i], ref[i]) for i in range(len(ref))]), "stored frames first, missing frames are zero")
    env.cover("read")


def harnesses(tier):
    fn = ["blockfile.file_writer", "blockfile.file_reader", "blockfile.get_header_from_signal", "utils._distributed.memmap_distributed"]
    hs = []
    shapes = [(2, 3, 2, 2), (3, 2, 3, 3)] + ([(2, 2, 5, 5), (4, 5, 2, 2), (5, 3, 4, 4)] if tier == "thorough" else [])
    for s in shapes:
        for lazy in (False, True):
            for end in "<>":
                hs.append(H(f"roundtrip {s} lazy={lazy} {end}", roundtrip, dict(shape=s, lazy=lazy, endianness=end), 120, fn,
                            f"shape {s}, all pixel bytes, scales, header integers symbolic", ["read back"]))
    for nav in (None, "array"):
        hs.append(H(f"roundtrip navigator={nav}", roundtrip, dict(shape=(2, 3, 2, 2), lazy=False, navigator=nav), 120, fn, "2x3x2x2", ["read back"]))
    for ch in [(1, 1, 2, 2), (2, 2, 1, 2), (1, 3, 2, 1), (2, (1, 2), 2, 2), ((1, 1), (2, 1), 2, (1, 1))]:
        hs.append(H(f"roundtrip chunks={ch}", roundtrip, dict(shape=(2, 3, 2, 2), lazy=True, chunks=ch), 120, fn, "2x3x2x2", ["read back"]))
    for ch in [((1, 2, 1), (1, 1), 2, 2), ((1, 3), 2, (2,), (1, 1)), (2, ((2,)), 2, 2)]:
        hs.append(H(f"roundtrip uneven chunks={ch}", roundtrip, dict(shape=(4, 2, 2, 2), lazy=True, chunks=ch), 120, fn, "4x2x2x2", ["read back"]))
    for s in [(2, 2, 2), (1, 3, 2), (3, 1, 2), (2, 3, 3)]:
        for lazy in (False, True):
            for (o1, o2) in [(4096, 4096 + 16), (512, 700)]:
                hs.append(H(f"layout {s} lazy={lazy} {o1},{o2}", layout, dict(shape=s, lazy=lazy, off1=o1, off2=o2), 120, fn,
                            f"scan x pattern {s}, offsets {o1},{o2}", ["read"]))
    hs.append(H("layout big endian", layout, dict(shape=(2, 3, 2), lazy=False, off1=512, off2=530, endianness=">"), 120, fn, "", ["read"]))
    for k in (0, 1, 4, 5):
        hs.append(H(f"truncated {k}", truncated, dict(shape=(2, 3, 2), nframes=k), 60, fn, f"{k} of 6 frames", ["read"]))
    return hs
