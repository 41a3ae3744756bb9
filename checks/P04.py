"""Semper pictures."""
from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "titles, units and the date come from a fixed set of values per harness; every pixel, scale and offset is symbolic",
    "no axis of length one (Semper pictures always have three axes; length-one axes are dropped on reading)",
    "the text of the value range in the label is not part of the claim",
]
SIGS = {"int8": 0, "int16": 1, "float32": 2, "complex64": 3, "int32": 4}


def roundtrip(env, shape, dtype, lazy, title="a title", units=("nm", "1/nm", "s"), wlazy=False):
    from rsciio.semper import file_reader, file_writer

    data = env.array("d", shape, dtype)
    n = len(shape)
    sc = [env.float("scale%d" % i, "f") for i in range(n)]
    of = [env.float("offset%d" % i, "f") for i in range(n)]
    d = data
    sg = signal(d, max(0, n - 2), sc, of, list(units[:n]), title=title)
    sg["metadata"]["General"].update(date="2014-02-03", time="04:05:06")
    fn = env.path("a.unf")
    file_writer(fn, sg)

    s = file_reader(fn, lazy=lazy)[0]
    r = env.nd(s["data"])
    env.check(tuple(r.shape) == tuple(shape), "shape survives")
    want = data if dtype not in ("float16", ">f2") else data.astype("float32")
    env.check(env.same_array(r, want, dtype=False), "every value survives")
    env.check(np.dtype(r.dtype) == np.dtype(want.dtype).newbyteorder("="), "data type survives")
    axes_match(env, s)
    for i, a in enumerate(s["axes"]):
        env.check(env.same(a["scale"], sc[i]), "scale of each axis survives")
        env.check(env.same(a["offset"], of[i]), "offset of each axis survives")
        env.check(a["units"] == units[i], "units of each axis survive")
    g = s["metadata"]["General"]
    env.check(g["title"] == title, "title survives")
    env.check((g["date"], g["time"]) == ("2014-02-03", "04:05:06"), "date and time survive")
    env.cover("read back")


def range_text(env, dtype, values):
    from rsciio.semper import file_reader, file_writer

    d = np.array(values, dtype=dtype)
    fn = env.path("a.unf")
    file_writer(fn, signal(d, 0))
    env.check(np.array_equal(file_reader(fn)[0]["data"], d), "data whose range has a long text are written")
    env.cover("read")


def sqlayout(env, dims, iform, lazy, label, title, realco=1, pad=0):
    """a picture laid out by hand from the format description"""
    from rsciio.semper import file_reader

    nlay, nrow, ncol = dims
    dt = np.dtype({v: k for k, v in SIGS.items()}[iform]).newbyteorder("<")
    head = env.pack("<hhhhhh", ncol, nrow, nlay, 1, iform, 20000 + 1000 * bool(label) + len(title))
    cells = env.pack("<i", 12) + head + env.pack("<i", 12)
    if title:
        cells += env.pack("<i", len(title)) + list(title.encode()) + env.pack("<i", len(title))
    co = [env.float("co%d" % i, "f") for i in range(6)]
    if label:
        w = [0] * 256

        def setb(b, vals):
            for i, v in enumerate(vals):
                w[b - 1 + i] = v

        setb(1, b"Semper")
        for b, h, v in ((7, 57, ncol), (9, 58, nrow), (11, 59, nlay)):
            setb(b, divmod(v, 256))
        setb(13, (0, 1, 0, 1, 0, 1))
        setb(19, (1, iform, 0, 114, 2, 3, 4, 5, 6))
        setb(28, [3]); setb(29, b"0,1")
        setb(56, [1]); setb(63, [realco]); setb(64, [4])
        for b, v in zip((76, 80, 84, 88, 92, 96), co):
            setb(b, env.pack("<f", v))
        setb(100, [len(title)]); setb(101, title.encode())
        setb(245, b"nm"); setb(249, b"um"); setb(253, b"s")
        cells += env.pack("<i", 512)
        for v in w:
            cells += [v, 0]
        cells += env.pack("<i", 512)
    px = []
    for _ in range(nlay * nrow):
        row = env.bytes("row", ncol * dt.itemsize)
        px += row
        rec = ncol * dt.itemsize + pad
        cells += env.pack("<i", rec) + row + [0] * pad + env.pack("<i", rec)
    ref = env.from_cells(px, dt, dims)
    s = file_reader(env.file("b.unf", cells), lazy=lazy)[0]
    r = env.nd(s["data"])
    env.check(env.same_array(r, ref.squeeze(), dtype=False), "rows are placed in order")
    axes_match(env, s)
    dz, z0, dy, y0, dx, x0 = co
    if not label or not realco:
        want = [(1.0, 0.0)] * 3
    else:
        want = [(dx, x0), (dy, y0), (dz, z0)]
    for a, (sc, of) in zip(s["axes"], want):
        env.check(env.all(env.same(a["scale"], sc), env.same(a["offset"], of)), "calibration from the label")
    if label:
        env.check([a["units"] for a in s["axes"]] == ["nm", "um", "s"][: len(s["axes"])], "units from the label")
        env.check((s["metadata"]["General"]["date"], s["metadata"]["General"]["time"]) == ("2014-02-03", "04:05:06"), "date from the label")
    env.check(s["metadata"]["General"]["title"] == title, "title")
    env.cover("read")


def harnesses(tier):
    fn = ["semper.SemperFormat.from_signal", "SemperFormat.save_to_unf", "SemperFormat._get_label", "SemperFormat._check_format", "SemperFormat.load_from_unf",
          "SemperFormat._read_label", "SemperFormat.to_dictionary", "_read_data", "pack_to_intbytes", "unpack_from_intbytes"]
    hs = []
    dts = ["int8", "int16", ">i2", "int32", ">i4", "float32", ">f4", "float16", "complex64", ">c8"]
    for i, dt in enumerate(dts):
        for shape in ((3,), (2, 3), (3, 2, 2)):
            for lazy in ((False, True) if tier == "thorough" else (bool(i % 2),)):
                hs.append(H(f"rt {dt} {shape} {lazy}", roundtrip, dict(shape=shape, dtype=dt, lazy=lazy), 150, fn, "symbolic pixels and calibration", ["read back"]))
    for t in ("", "naïve µ", "x" * 144):
        hs.append(H(f"rt title {t[:9]}", roundtrip, dict(shape=(2, 3), dtype="int16", lazy=False, title=t), 60, fn, "", ["read back"]))
    hs.append(H("rt units", roundtrip, dict(shape=(2, 3, 2), dtype="float32", lazy=False, units=("µm", "", "Å")), 60, fn, "", ["read back"]))
    for n in (130, 256, 260, 300):
        hs.append(H(f"rt long {n}", roundtrip, dict(shape=(n,), dtype="int8", lazy=False), 60, fn, "", ["read back"]))
        hs.append(H(f"rt tall {n}", roundtrip, dict(shape=(n, 2), dtype="int8", lazy=True), 60, fn, "", ["read back"]))
    for dt, v in (("complex64", [0.12345 + 0.23456j, -0.34567e-20 - 0.45678e-20j]), ("float32", [-1.23456e-20, -2.34567e-30]), ("int32", [-2147483648, -2147483647])):
        hs.append(H(f"range {dt}", range_text, dict(dtype=dt, values=v), 60, fn, "one concrete array", ["read"]))
    for iform in range(5):
        for label, title, realco in ((True, "abc", 1), (False, "", 1), (True, "", 0), (False, "tt", 1)):
            hs.append(H(f"layout {iform} {label} {title} {realco}", sqlayout, dict(dims=(2, 2, 3), iform=iform, lazy=iform % 2 == 0, label=label, title=title, realco=realco, pad=1 if iform == 0 else 0), 60, fn, "", ["read"]))
    return hs
