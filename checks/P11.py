"""MRC stacks, with FEI and Direct Electron extensions."""
from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "files are laid out by the harness from the description of the MRC format; sizes, mode and header lengths are concrete, every other header field and all pixels symbolic",
    "Direct Electron text files hold fixed key names with values from small sets",
]
MODES = {0: "uint8", 1: "int16", 2: "float32", 4: "complex64", 6: "uint16", 12: "float16"}
U4 = ["NXSTART", "NYSTART", "NZSTART", "MX", "MY", "MZ"]
F4 = ["Xlen", "Ylen", "Zlen", "ALPHA", "BETA", "GAMMA"]


def make(env, dims, mode, e="<", nxt=0, ext=None, data=None, zero=()):
    """the file, its header fields and the data"""
    nx, ny, nz = dims
    h = dict(NX=nx, NY=ny, NZ=nz, MODE=mode, NEXT=nxt)
    c = list(env.pack(e + "IIII", nx, ny, nz, mode))
    for k in U4:
        h[k] = 0 if k in zero else env.int(k, 1 if k[0] == "M" else 0, 2 ** 32 - 1)
        c += list(env.pack(e + "I", h[k]))
    for k in F4:
        h[k] = 0.0 if k in zero else env.float(k, "f")
        c += list(env.pack(e + "f", h[k]))
    for k in ("MAPC", "MAPR", "MAPS"):
        h[k] = env.int(k, 0, 2 ** 32 - 1)
        c += list(env.pack(e + "I", h[k]))
    for k in ("AMIN", "AMAX", "AMEAN"):
        h[k] = env.float(k, "f")
        c += list(env.pack(e + "f", h[k]))
    for k in ("ISPG", "NSYMBT"):
        h[k] = env.int(k, 0, 65535)
        c += list(env.pack(e + "H", h[k]))
    c += list(env.pack(e + "I", nxt))
    h["CREATID"] = env.int("CREATID", 0, 65535)
    c += list(env.pack(e + "H", h["CREATID"])) + [0] * 30
    for k in ("NINT", "NREAL"):
        h[k] = env.int(k, 0, 65535)
        c += list(env.pack(e + "H", h[k]))
    c += [0] * 28
    for k in ("IDTYPE", "LENS", "ND1", "ND2", "VD1", "VD2"):
        h[k] = env.int(k, 0, 65535)
        c += list(env.pack(e + "H", h[k]))
    c += [0] * 24
    for k in ("XORIGIN", "YORIGIN", "ZORIGIN"):
        h[k] = env.float(k, "f")
        c += list(env.pack(e + "f", h[k]))
    c += list(b"MAP ") + [0x44, 0x44, 0, 0]
    h["RMS"] = env.float("RMS", "f")
    c += list(env.pack(e + "f", h["RMS"]))
    h["NLABL"] = env.int("NLABL", 0, 2 ** 32 - 1)
    c += list(env.pack(e + "I", h["NLABL"])) + [0] * 800
    assert len(c) == 1024
    c += list(ext) if ext is not None else [0x55] * nxt
    if data is None:
        data = env.array("d", (nz, ny, nx), np.dtype(MODES[mode]).newbyteorder(e))
    c += list(env.cells(data))
    return c, h, data


def plain(env, dims, mode, e, nxt, lazy, nav=None, chunks="auto", zero=()):
    from rsciio.mrc import file_reader

    c, h, data = make(env, dims, mode, e, nxt, zero=zero)
    env.file("a.mrc", c)
    kw = dict(navigation_shape=nav) if nav else {}
    s = file_reader(env.path("a.mrc"), lazy=lazy, endianness=e, chunks=chunks, **kw)
    env.check(len(s) == 1, "one signal")
    s = s[0]
    full = (nav[::-1] if nav else (dims[2],)) + (dims[1], dims[0])
    keep = [i for i, n in enumerate(full) if n != 1]
    want = env.nd(data).reshape(tuple(full[i] for i in keep))
    r = env.nd(s["data"])
    env.check(tuple(r.shape) == tuple(want.shape), "shape from the header")
    env.check(env.same_array(r, want, dtype=False), "every value as stored")
    env.check(np.dtype(r.dtype).newbyteorder("=") == np.dtype(MODES[mode]), "data type of the mode")
    env.check(isinstance(s["data"], np.ndarray) != lazy or env.symbolic, "laziness as asked for")
    axes_match(env, s)
    k = len(full)
    ten = 10
    sc = [1] * (k - 3) + [h["Zlen"] / h["MZ"] / ten if not ("Zlen" in zero or "MZ" in zero) else 1] + [h[a + "len"] / h["M" + a] / ten if "M" + a not in zero else 1 for a in "YX"]
    of = [0] * (k - 3) + [h[a + "ORIGIN"] / ten for a in "ZYX"]
    nm = [""] * (k - 3) + ["z", "y", "x"]
    un = [None] * (k - 2) + ["nm", "nm"]
    for a, i in zip(s["axes"], keep):
        env.check(env.same(a["offset"], of[i]), "offset of each axis in nm")
        env.check((a["name"], a["units"], a["navigate"]) == (nm[i], un[i], i < k - 2), "name, units and role of each axis")
        env.check(zero or env.same(a["scale"], sc[i]) if i < k - 3 else True, "scale of added axes")
        if i >= k - 3:
            # zero length along z means no calibration
            env.check(env.any(env.same(a["scale"], sc[i]), env.all(h["Zlen"] == 0, a["scale"] == 1) if i == k - 3 else False), "scale of each axis in nm")
    sh = s["original_metadata"]["std_header"]
    env.check(env.all(*[env.same(sh[k], v) for k, v in h.items()]), "every header field from its place")
    env.cover("read")


FEI = ["a_tilt", "b_tilt", "x_stage", "y_stage", "z_stage", "x_shift", "y_shift", "defocus", "exp_time", "mean_int", "tilt_axis", "pixel_size", "magnification"]


def fei(env, lazy, nz):
    from rsciio.mrc import file_reader

    v = {k: env.float(k, "f") for k in FEI}
    ext = []
    for k in FEI:
        ext += list(env.pack("<f", v[k]))
    ext += [0] * (131072 - len(ext))
    c, h, data = make(env, (3, 2, nz), 6, "<", 131072, ext)
    env.file("a.mrc", c)
    s = file_reader(env.path("a.mrc"), lazy=lazy)[0]
    r = env.nd(s["data"])
    env.check(env.same_array(r, env.nd(data).reshape(r.shape), dtype=False) and r.size == 6 * nz, "every value as stored")
    fh = s["original_metadata"]["fei_header"]
    env.check(env.all(*[env.same(fh[k][0], v[k]) for k in FEI]), "fields of the extended header")
    for a in s["axes"][-2:]:
        env.check(env.same(a["scale"], fh["pixel_size"][0] * 10 ** 9), "pixel size in nm")
        env.check(a["offset"] == 0, "offset")
    env.check({d[0].split(".")[-1] for d in s["mapping"].values()} == {"tilt_alpha", "tilt_beta", "x", "y", "z", "exposure", "magnification"}, "mapping to metadata")
    env.cover("read")


def de_stem(env, nav, roi, lazy, px, py, t, delay, dx):
    """raster scans of a Direct Electron camera"""
    from rsciio.mrc import file_reader

    x, y = nav
    n = 20210101
    base = "20210101_00001"
    c, h, data = make(env, (3, 2, x * y), 1)
    env.file(base + "_movie.mrc", c)
    L = ["Instrument Project TEMorSTEM Mode = 1", "Scan - Enable = Enable", "Scan - Type = Raster", "Image Size X (pixels) = 3", "Image Size Y (pixels) = 2", "Camera Model = DE16", "ADUs Per Electron Bin1x = 12.5", "Instrument Project Magnification = 1500", "Timestamp (seconds since Epoch) = 77", "Frames Per Second = 100"]
    L += (["Scan - ROI Enable = Enable", "Scan - ROI Size X = %d" % x, "Scan - ROI Size Y = %d" % y, "Scan - Size X = 99", "Scan - Size Y = 98"] if roi else ["Scan - Size X = %d" % x, "Scan - Size Y = %d" % y])
    for k, v in (("Specimen Pixel Size X (nanometers)", px), ("Specimen Pixel Size Y (nanometers)", py), ("Scan - Time (seconds)", t), ("Scan - Repeat Delay (seconds)", delay), ("Diffraction Pixel Size X", dx)):
        if v is not None:
            L.append("%s = %s" % (k, v))
    env.file(base + "_info.txt", list(("\n".join(L) + "\n").encode()))
    s = file_reader(env.path(base + "_movie.mrc"), lazy=lazy)[0]
    full = (y, x, 2, 3)
    keep = [i for i, k in enumerate(full) if k != 1]
    r = env.nd(s["data"])
    env.check(env.same_array(r, env.nd(data).reshape([full[i] for i in keep]), dtype=False), "frame n at scan position (n div X, n mod X)")
    axes_match(env, s)
    num = lambda q: 1 if q in (None, "-1") else float(q)
    sc = [num(py), num(px), 1, num(dx)]
    for a, i in zip(s["axes"], keep):
        env.check(a["name"] == ["y", "x", "ky", "kx"][i], "axis names")
        env.check(a["scale"] == sc[i], "pixel sizes from the text file")
        env.check(a["units"] == ["nm", "nm", "nm^-1", "nm^-1"][i] and a["navigate"] == (i < 2), "axis units and roles")
    env.check(s["original_metadata"]["de_metadata"]["Camera Model"] == "DE16", "text file kept")
    m = s["metadata"]
    env.check(m["Acquisition_instrument"]["TEM"] == {"magnification": "1500", "detector": "DE16", "frames_per_second": "100"} and m["General"]["timestamp"] == "77", "camera, magnification, frame rate and date of the text file")
    env.check(m["Signal"]["Noise_properties"]["gain_factor"] == 1 / 12.5, "gain is electrons per unit")
    env.cover("read")


def de_custom(env, grid, n, repeat, lazy):
    """scans along listed positions: (x, y) per line, some maybe never visited or visited again"""
    from rsciio.mrc import file_reader

    X, Y = grid
    pts = [(x, y) for y in range(Y) for x in range(X)]
    pos = list(env.choose("order", [p for p in (itertools.product(pts, repeat=n) if repeat else itertools.permutations(pts, n)) if (X - 1) in [q[0] for q in p] and (Y - 1) in [q[1] for q in p]]))
    c, h, data = make(env, (3, 2, n), 1)
    env.file("20210101_00001_movie.mrc", c)
    env.file("20210101_00001_info.txt", list(b"Scan - Enable = Enable\nScan - Type = Custom\nSpecimen Pixel Size X (nanometers) = 2\nSpecimen Pixel Size Y (nanometers) = 3\n"))
    env.file("20210101_00001_scan_coordinates.csv", list("".join("%d,%d\n" % q for q in pos).encode()))
    s = file_reader(env.path("20210101_00001_movie.mrc"), lazy=lazy)[0]
    reps = max(pos.count(q) for q in pos)
    full = (Y, X, reps, 2, 3)
    keep = [i for i, k in enumerate(full) if k != 1]
    r = env.nd(s["data"])
    env.check(tuple(r.shape) == tuple(full[i] for i in keep), "shape of the scan")
    r = r.reshape(full)
    d = env.nd(data)
    seen = {}
    ok = []
    for i, (x, y) in enumerate(pos):
        k = seen[x, y] = seen.get((x, y), -1) + 1
        ok.append(env.same_array(r[y, x, k], d[i], dtype=False))
    for x, y in pts:
        for k in range(seen.get((x, y), -1) + 1, reps):
            ok.append(env.same_array(r[y, x, k], np.zeros((2, 3), "int16"), dtype=False))
    env.check(env.all(*ok), "each frame where the scan file puts it, nothing elsewhere")
    axes_match(env, s)
    for a, i in zip(s["axes"], keep):
        env.check(a["name"] == ["y", "x", "time", "ky", "kx"][i] and a["scale"] == [3, 2, 2, 1, 1][i], "axes of the scan")
    env.cover("read")


def de_tem(env, lazy, nz, diff):
    from rsciio.mrc import file_reader

    c, h, data = make(env, (3, 2, nz), 1)
    env.file("20210101_00001_movie.mrc", c)
    env.file("20210101_00001_info.txt", list(b"Instrument Project TEMorSTEM Mode = 0\nFrames Per Second = 4\nSpecimen Pixel Size X (nanometers) = 2.5\nSpecimen Pixel Size Y (nanometers) = 3\nDiffraction Pixel Size X = -1\nDiffraction Pixel Size Y = 0.5\n" + (b"Instrument Project Camera Length (centimeters) = 80\n" if diff else b"")))
    s = file_reader(env.path("20210101_00001_movie.mrc"), lazy=lazy)[0]
    full = (nz, 2, 3)
    keep = [i for i, k in enumerate(full) if k != 1]
    r = env.nd(s["data"])
    env.check(env.same_array(r, env.nd(data).reshape([full[i] for i in keep]), dtype=False), "frames in order")
    axes_match(env, s)
    for a, i in zip(s["axes"], keep):
        env.check((a["name"], a["scale"], a["units"]) == [("time", 0.25, "sec"), ("ky", 0.5, "nm^-1") if diff else ("y", 3, "nm"), ("kx", 1, "nm^-1") if diff else ("x", 2.5, "nm")][i], "axes of the movie")
    env.cover("read")


def line_detector(env, dims, nav, lazy):
    """scans with a detector of one row or one column"""
    from rsciio.mrc import file_reader

    X, Y = nav
    kx, ky = dims
    c, h, data = make(env, (kx, ky, X * Y), 1)
    env.file("m_movie.mrc", c)
    t = env.file("info.txt", list(("Scan - Enable = Enable\nScan - Type = Raster\nScan - Size X = %d\nScan - Size Y = %d\nImage Size X (pixels) = %d\nImage Size Y (pixels) = %d\nDiffraction Pixel Size X = 5\nDiffraction Pixel Size Y = 7\nSpecimen Pixel Size X (nanometers) = 2\nSpecimen Pixel Size Y (nanometers) = 3\n" % (X, Y, kx, ky)).encode()))
    s = file_reader(env.path("m_movie.mrc"), lazy=lazy, metadata_file=t)[0]
    full = (Y, X, ky, kx)
    keep = [i for i, k in enumerate(full) if k != 1]
    r = env.nd(s["data"])
    env.check(env.same_array(r, env.nd(data).reshape([full[i] for i in keep]), dtype=False), "frame n at scan position (n div X, n mod X)")
    axes_match(env, s)
    env.check([(a["name"], a["scale"], a["navigate"]) for a in s["axes"]] == [[("y", 3, True), ("x", 2, True), ("ky", 7, False), ("kx", 5, False)][i] for i in keep], "names, pixel sizes and roles of the axes")
    env.cover("read")


def virtual(env, nav, flat, lazy):
    """images given by the caller are navigators, in the shape of the scan"""
    from rsciio.mrc import file_reader

    X, Y = nav
    c, h, data = make(env, (3, 2, X * Y), 1)
    env.file("a.mrc", c)
    fs, ds = [], []
    for i in range(2):
        c, h, d = make(env, (X * Y, 1, 1) if flat else (X, Y, 1), 2)
        fs.append(env.file("v%d.mrc" % i, c))
        ds.append(env.nd(d).reshape((Y, X)))
    c, h, d = make(env, (2, 5, 1), 0)
    ext = env.file("e.mrc", c)
    s = file_reader(env.path("a.mrc"), lazy=lazy, navigation_shape=nav, virtual_images=fs, external_images=[ext])[0]
    hs = s["metadata"]["_HyperSpy"]
    nv = hs["navigators"]
    env.check(sorted(nv) == ["_sig_external_image_0", "_sig_virtual_image_0", "_sig_virtual_image_1"], "every image once")
    for i in range(2):
        env.check(env.same_array(env.nd(nv["_sig_virtual_image_%d" % i]["data"]), ds[i], dtype=False), "virtual images in the shape of the scan, in order")
    env.check(env.same_array(env.nd(hs["_sig_navigator"]["data"]), ds[0], dtype=False), "the first virtual image is the navigator")
    env.check(env.same_array(env.nd(nv["_sig_external_image_0"]["data"]), env.nd(d).reshape((5, 2)), dtype=False), "external images as they are")
    env.check(env.same_array(env.nd(s["data"]), env.nd(data).reshape((Y, X, 2, 3)), dtype=False), "the data")
    env.cover("read")


def related(env, names, order, d):
    """virtual and external images carry their own names, whatever order the directory is listed in"""
    import glob

    from rsciio.mrc import _api

    base = "20210101_00001"
    env.check(True, "")
    files, vals = [], {}
    dd = env.path("")
    for i, (fn, label) in enumerate(names):
        c, h, data = make(env, (2, 2, 1), 0, data=env.array("d%d" % i, (1, 2, 2), "uint8"))
        env.file(fn, c)
        files.append(env.path(fn))
        vals[label] = data
    c, h, data = make(env, (3, 2, 4), 1)
    env.file(base + "_movie.mrc", c)
    env.file(base + "_info.txt", list(b"Scan - Enable = Enable\nScan - Type = Raster\nScan - Size X = 2\nScan - Size Y = 2\n"))
    old = glob.glob
    p = env.choose("order", list(itertools.permutations(range(len(files)))))

    def listing(pat, **k):
        if pat.endswith("*.mrc"):
            return [files[i] for i in p] + [env.path(base + "_movie.mrc")]
        if pat.endswith("_info.txt") and "*" not in pat[-12:]:
            return [env.path(base + "_info.txt")]
        return []

    glob.glob = listing
    try:
        s = _api.file_reader(env.path(base + "_movie.mrc"))[0]
    finally:
        glob.glob = old
    nv = s["metadata"]["_HyperSpy"]["navigators"]
    env.check(sorted(nv) == sorted("_sig_" + k for k in vals), "every related image under its name")
    env.check(env.all(*[env.same_array(env.nd(nv["_sig_" + k]["data"]), env.nd(v).reshape((2, 2)), dtype=False) for k, v in vals.items()]), "each related image holds its own data")
    env.cover("read")


def harnesses(tier):
    hs = []
    f = ["mrc.file_reader", "get_std_dtype_list", "memmap_distributed"]
    for mode in MODES:
        for e in "<>":
            for lazy in (False, True):
                hs.append(H(f"mode {mode} {e} {lazy}", plain, dict(dims=(3, 2, 2), mode=mode, e=e, nxt=0, lazy=lazy), 120, f, "symbolic header and pixels", ["read"]))
    for dims in ((1, 2, 3), (3, 1, 2), (3, 2, 1), (1, 1, 3), (4, 1, 1), (1, 3, 1), (4, 3, 2)):
        for nxt in (0, 7, 1024):
            for lazy in (False, True):
                hs.append(H(f"dims {dims} {nxt} {lazy}", plain, dict(dims=dims, mode=1, e="<", nxt=nxt, lazy=lazy), 120, f, "symbolic header and pixels", ["read"]))
    for dims, nav in (((3, 2, 6), (3, 2)), ((3, 2, 6), (2, 3)), ((3, 2, 6), (6,)), ((2, 2, 8), (2, 2, 2)), ((2, 2, 6), (1, 3, 2)), ((3, 2, 3), (3, 1)), ((3, 1, 6), (3, 2)), ((3, 2, 3), (1, 3))):
        for lazy in (False, True):
            for ch in ("auto", 2) if lazy else ("auto",):
                hs.append(H(f"nav {dims} {nav} {lazy} {ch}", plain, dict(dims=dims, mode=6, e="<", nxt=0, lazy=lazy, nav=nav, chunks=ch), 120, f, "symbolic header and pixels", ["read"]))
    for ch in (((1, 2, 1), 2, 3), ((1, 1, 2), (1, 1), (1, 2)), ((2, 2), 1, 2)):
        hs.append(H(f"chunks {ch}", plain, dict(dims=(3, 2, 4), mode=6, e="<", nxt=0, lazy=True, chunks=ch), 120, f, "symbolic header and pixels", ["read"]))
    for zero in (("Zlen",), ("MZ",), ("MX", "MY"), ("Xlen",)):
        hs.append(H(f"zero {zero}", plain, dict(dims=(3, 2, 2), mode=0, e="<", nxt=0, lazy=False, zero=zero), 120, f, "symbolic header and pixels", ["read"]))
    for lazy in (False, True):
        for nz in (1, 2):
            hs.append(H(f"fei {lazy} {nz}", fei, dict(lazy=lazy, nz=nz), 120, f + ["get_fei_dtype_list"], "symbolic header and pixels", ["read"]))
    for nav in ((3, 2), (2, 3), (3, 1), (1, 3)):
        for roi in (False, True):
            for px, py, t, dl, dx in (("0.5", "0.25", "1.5", "0.5", "0.01"), (None, None, None, None, None), ("2", "-1", "3", None, "-1"), ("-1", "3", None, "2", None)):
                hs.append(H(f"de {nav} {roi} {px} {py} {t} {dl}", de_stem, dict(nav=nav, roi=roi, lazy=roi, px=px, py=py, t=t, delay=dl, dx=dx), 120, ["read_de_metadata_file", "mrc.file_reader"], "symbolic pixels", ["read"]))
    for grid, n, rep in (((2, 2), 4, False), ((2, 2), 3, False), ((2, 2), 3, True), ((3, 1), 3, False), ((1, 2), 3, True)) + (((2, 2), 4, True), ((2, 3), 5, False), ((3, 2), 4, False)) * (tier == "thorough"):
        for lazy in (False, True):
            hs.append(H(f"custom {grid} {n} {rep} {lazy}", de_custom, dict(grid=grid, n=n, repeat=rep, lazy=lazy), 300, ["read_de_metadata_file", "get_arbitrary_chunk_slice", "slice_memmap"], "every list of positions; symbolic pixels", ["read"]))
    for lazy in (False, True):
        for nz in (1, 3):
            for diff in (False, True):
                hs.append(H(f"tem {lazy} {nz} {diff}", de_tem, dict(lazy=lazy, nz=nz, diff=diff), 120, ["read_de_metadata_file"], "symbolic pixels", ["read"]))
    for dims in ((4, 1), (1, 4), (3, 2), (1, 1)):
        for nav in ((2, 3), (3, 1)):
            for lazy in (False, True):
                hs.append(H(f"detector {dims} {nav} {lazy}", line_detector, dict(dims=dims, nav=nav, lazy=lazy), 120, ["read_de_metadata_file", "mrc.file_reader"], "symbolic pixels", ["read"]))
    for nav in ((3, 2), (2, 4)):
        for flat in (False, True):
            hs.append(H(f"virtual {nav} {flat}", virtual, dict(nav=nav, flat=flat, lazy=flat), 120, ["mrc.file_reader"], "symbolic pixels", ["read"]))
    B = "20210101_00001"
    for names in ([(B + "_1_BF_sum.mrc", "BF"), (B + "_0_DF_mean.mrc", "DF"), (B + "_2_ADF_x.mrc", "ADF")], [(B + "_ext2_B.mrc", "B"), (B + "_ext1_C.mrc", "C"), (B + "_ext3.mrc", "ext3")], [(B + "_suf_virt1_BF_sum.mrc", "BF"), (B + "_suf_virt0_DF_sum.mrc", "DF"), (B + "_suf_ext1_A.mrc", "A")]):
        hs.append(H(f"related {names[0][1]}", related, dict(names=names, order=None, d=None), 120, ["find_related_de_files"], "every order of the directory listing", ["read"]))
    return hs
