"""EDAX spectra (.spc), maps (.spd, .ipr) and line scans (.lsd, .csv)."""
from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "version numbers, sizes and element numbers are concrete, other header values symbolic (finite floats)",
    "np.memmap is modelled as a view of the file's bytes",
]
F = ["rsciio.edax._api." + n for n in ("file_reader", "spc_reader", "si_reader", "get_spc_dtype_list", "get_spd_dtype_list", "get_ipr_dtype_list", "_add_spc_metadata")] + ["rsciio.utils._distributed.memmap_distributed"]
# (name, position, format) of the file specification
SPC = [("aVersion", 4, "f"), ("collectDateYear", 16, "h"), ("collectDateDay", 18, "b"), ("collectDateMon", 19, "b"), ("collectTimeMin", 20, "b"), ("collectTimeHour", 21, "b"), ("collectTimeHund", 22, "b"), ("collectTimeSec", 23, "b"),
       ("fileSize", 24, "i"), ("intersectingDist", 34, "h"), ("workingDist", 36, "h"), ("scaleSetting", 38, "h"), ("spotX", 328, "h"), ("spotY", 330, "h"), ("imageADC", 332, "h"), ("pileupProcessed", 359, "b"), ("fpgaVersion", 360, "i"),
       ("pileupProcVersion", 364, "i"), ("NB5000CFG", 368, "i"), ("evPerChan", 384, "i"), ("ADCTimeConstant", 388, "h"), ("analysisType", 390, "h"), ("preset", 392, "f"), ("maxp", 396, "i"), ("maxPeakCh", 400, "i"), ("xRayTubeZ", 404, "h"),
       ("filterZ", 406, "h"), ("current", 408, "f"), ("sampleCond", 412, "h"), ("sampleType", 414, "h"), ("xrayCollimator", 416, "H"), ("xrayCapilaryType", 418, "H"), ("xrayCapilarySize", 420, "H"), ("xrayFilterThickness", 422, "H"),
       ("spectrumSmoothed", 424, "H"), ("detector_Size_SiLi", 426, "H"), ("spectrumReCalib", 428, "H"), ("eagleSystem", 430, "H"), ("sumPeakRemoved", 432, "H"), ("edaxSoftwareType", 434, "H"), ("escapePeakRemoved", 442, "H"),
       ("analyzerType", 444, "I"), ("startEnergy", 448, "f"), ("endEnergy", 452, "f"), ("liveTime", 456, "f"), ("tilt", 460, "f"), ("takeoff", 464, "f"), ("beamCurFact", 468, "f"), ("detReso", 472, "f"), ("detectType", 476, "I"),
       ("parThick", 480, "f"), ("alThick", 484, "f"), ("beWinThick", 488, "f"), ("auThick", 492, "f"), ("siDead", 496, "f"), ("siLive", 500, "f"), ("xrayInc", 504, "f"), ("azimuth", 508, "f"), ("elevation", 512, "f"), ("bCoeff", 516, "f"),
       ("cCoeff", 520, "f"), ("tailMax", 524, "f"), ("tailHeight", 528, "f"), ("kV", 532, "f"), ("apThick", 536, "f"), ("xTilt", 540, "f"), ("yTilt", 544, "f"), ("yagStatus", 548, "I"), ("rawDataType", 576, "H"), ("totalBkgdCount", 578, "f"),
       ("totalSpectralCount", 582, "I"), ("avginputCount", 586, "f"), ("stdDevInputCount", 590, "f"), ("peakToBack", 594, "H"), ("peakToBackValue", 596, "f"), ("numRois", 1342, "h"), ("backgrdWidth", 2220, "h"), ("manBkgrdPerc", 2222, "f"),
       ("numBkgrdPts", 2226, "h"), ("backMethod", 2228, "I"), ("backStEng", 2232, "f"), ("backEndEng", 2236, "f"), ("bgType", 2368, "I"), ("concenKev1", 2372, "f"), ("concenKev2", 2376, "f"), ("concenMethod", 2380, "h"), ("numLabels", 2430, "h"),
       ("zListFlag", 2812, "i"), ("IswGBg", 3072, "h"), ("IswGConc", 3094, "h"), ("numConcen", 3096, "h")]
# arrays: (name, position, format, index of the element set)
SPCA = [("discrValues", 334, "i", 3), ("discrEnabled", 354, "b", 4), ("line", 736, "H", 47), ("energy", 832, "f", 46), ("height", 1024, "I", 5), ("spkht", 1216, "h", 47), ("st", 1344, "h", 1), ("end", 1440, "h", 2), ("roiEnable", 1536, "h", 47),
        ("sRoi", 2016, "h", 47), ("scaNum", 2112, "h", 4), ("bg", 2240, "h", 63), ("labelx", 2752, "h", 9), ("labely", 2772, "i", 9), ("bgPercents", 2816, "f", 63), ("BgPoints", 3074, "f", 4), ("ZList", 3098, "h", 23), ("GivenConc", 3146, "f", 23),
        ("s", 3840, "i", 4095), ("longFileName", 20224, "b", 3), ("longImageFileName", 20480, "b", 255)]
SPC7 = [("ADCTimeConstantNew", 20736, "f"), ("numZElements", 20800, "h")]
SPC7A = [("zAtoms", 20802, "h", 47), ("zShells", 20898, "h", 46)]
SHORT = ("evPerChan", "startEnergy", "endEnergy", "liveTime", "tilt", "detReso", "azimuth", "elevation", "kV")
SIZE = {"b": 1, "h": 2, "H": 2, "i": 4, "I": 4, "f": 4, "B": 1}
IPR = [("imageType", 2, "H"), ("sMin", 12, "H"), ("sMax", 14, "H"), ("color", 16, "H"), ("presetMode", 18, "H"), ("presetTime", 20, "I"), ("dataType", 24, "H"), ("timeConstantOld", 26, "H"), ("reserved1", 28, "h"), ("roiStartChan", 30, "H"),
       ("roiEndChan", 32, "H"), ("userMin", 34, "h"), ("userMax", 36, "h"), ("iADC", 38, "H"), ("reserved2", 40, "h"), ("iBits", 42, "H"), ("nReads", 44, "H"), ("nFrames", 46, "H"), ("fDwell", 48, "f"), ("accV", 52, "H"), ("tilt", 54, "h"),
       ("takeoff", 56, "h"), ("mag", 58, "I"), ("wd", 62, "H"), ("mppX", 64, "f"), ("mppY", 68, "f"), ("nTextLines", 72, "H"), ("nOverlayElements", 218, "H")]


def value(env, name, f):
    if f == "f":
        return env.float(name, "f")
    n = 8 * SIZE[f]
    return env.int(name, *((0, 2**n - 1) if f.isupper() else (-2**(n - 1), 2**(n - 1) - 1)))


def fields(env, cells, table, end, tag, arrays=()):
    out = {}
    for name, o, f in table:
        out[name] = value(env, tag + name, f)
        put(cells, o, env.pack(end + f, out[name]))
    for name, o, f, i in arrays:
        out[name, i] = value(env, tag + name, f)
        put(cells, o + i * SIZE[f], env.pack(end + f, out[name, i]))
    return out


def spc(env, end, version, nz, start=3840, elements=(26, 6, 8), full=False, data=True):
    cells = [0] * (3840 if not full else 20736 if version < 0.7 else 20994)
    put(cells, 0, env.pack(end + "f", version))
    tab = SPC if full else [f for f in SPC if f[0] in SHORT]
    v = fields(env, cells, tab + (SPC7 if full and version >= 0.7 else []), end, "h.", (SPCA[:-3] + SPCA[-2:] if data else SPCA) + (SPC7A if version >= 0.7 else []) if full else ())
    put(cells, 28, env.pack(end + "i", start))
    put(cells, 32, env.pack(end + "h", nz))
    put(cells, 638, env.pack(end + "h", len(elements)))
    put(cells, 640, env.pack(end + "%dH" % 48, *(list(elements) + [92] * (48 - len(elements)))))
    if not full:
        put(cells, 20739, [0])
    return cells, v


NAMES = {26: "Fe", 6: "C", 8: "O", 1: "H", 79: "Au"}


def check_spc(env, s, v, elements, version, full, end):
    d = s["metadata"]["Acquisition_instrument"]["SEM"]
    e = d["Detector"]["EDS"]
    env.check(env.all(env.same(e["azimuth_angle"], v["azimuth"]), env.same(e["elevation_angle"], v["elevation"]), env.same(e["energy_resolution_MnKa"], v["detReso"]), env.same(e["live_time"], v["liveTime"]),
                      env.same(d["beam_energy"], v["kV"]), env.same(d["Stage"]["tilt_alpha"], v["tilt"])), "angles, resolution, live time, beam energy, tilt")
    if elements:
        env.check(s["metadata"]["Sample"]["elements"] == sorted(NAMES[z] for z in elements), "elements")
    else:
        env.check("Sample" not in s["metadata"], "no element")
    h = s["original_metadata"]["spc_header"]
    ok = [env.same(h[k if isinstance(k, str) else k[0]] if isinstance(k, str) else h[k[0]][k[1]], x) for k, x in v.items()]
    env.check(env.all(*ok), "every value of the header is that of its field")
    ax = s["axes"][-1]
    env.check(env.all(env.same(ax["scale"], v["evPerChan"] / 1000.0), env.same(ax["offset"], v["startEnergy"])), "energy calibration")
    env.check((ax["name"], ax["units"], ax["navigate"]) == ("Energy", "keV", False), "energy axis")


def h_spc(env, end, version, nz, start, full, lazy, elements=(26, 6, 8), chunks="auto"):
    from rsciio.edax import file_reader

    cells, v = spc(env, end, version, nz, start, elements, full)
    raw = env.bytes("d", 4 * nz)
    put(cells, start, raw)
    k = {} if end == "<" else {"endianness": end}
    if not lazy or chunks != "auto":
        k["chunks"] = chunks
    s = file_reader(env.file("x.spc", cells), lazy=lazy, load_all_spc=full, **k)[0]
    want = env.from_cells(raw, end + "u4")
    d = env.nd(s["data"])
    env.check(tuple(d.shape) == (nz,) and env.same_array(d, want), "counts of every channel")
    axes_match(env, s)
    check_spc(env, s, v, elements, version, full, end)
    env.check(s["metadata"]["General"] == {"original_filename": "x.spc", "title": "EDS Spectrum"} and s["metadata"]["Signal"]["signal_type"] == "EDS_SEM", "titles")
    env.cover("read")


def spd(env, end, nx, ny, nz, b, offset, name="img_1.bmp", nspec=None, tag="MAPSPECTRA_DATA"):
    cells = [0] * 1068
    put(cells, 0, tag.encode())
    ver, fr = env.int("ver", -2**31, 2**31 - 1), env.int("nFrames", 0, 2**32 - 1)
    put(cells, 16, env.pack(end + "iiiIIIII", ver, nx * ny if nspec is None else nspec, nx, ny, nz, b, offset, fr))
    put(cells, 48, name.encode())
    put(cells, 1068, [7] * max(0, offset - 1068))
    return cells, ver, fr


def h_spd(env, shape, b, end="<", offset=1068, lazy=False, chunks="auto", side="all", given=False, ipr_version=334, full=False):
    from rsciio.edax import file_reader

    ny, nx, nz = shape
    cells, ver, fr = spd(env, end, nx, ny, nz, b, offset)
    raw = env.bytes("d", b * nx * ny * nz)
    put(cells, offset, raw)
    fn = env.file("map.spd", cells)
    k = {} if end == "<" else {"endianness": end}
    v = p = None
    if side in ("all", "spc"):
        sc, v = spc(env, end, 0.7 if full else 0.61, 9, full=full, data=False)
        sp = env.file("other.spc" if given else "map.spc", sc)
        if given:
            k["spc_fname"] = sp
    if side in ("all", "ipr"):
        ic = [0] * (252 if ipr_version < 334 else 264)
        put(ic, 0, env.pack(end + "H", ipr_version))
        p = fields(env, ic, IPR + ([("timeConstantNew", 252, "f")] if ipr_version >= 334 else []), end, "i.", (("overlayColors", 220, "H", 15), ("reserved3", 202, "f", 3)) + ((("reserved4", 256, "f", 1),) if ipr_version >= 334 else ()))
        put(ic, 4, b"LABEL")
        for j in range(4):
            put(ic, 74 + 32 * j, b"text %d" % j)
        ip = env.file("other.ipr" if given else "img_1.ipr", ic)
        if given:
            k["ipr_fname"] = ip
    s = file_reader(fn, lazy=lazy, chunks=chunks, load_all_spc=full, **k)[0]
    want = env.from_cells(raw, end + "u%d" % b, shape)
    d = env.nd(s["data"])
    env.check(tuple(d.shape) == tuple(shape) and env.same_array(d, want), "counts of every channel of every pixel")
    if lazy and chunks != "auto":
        env.check(s["data"].chunks == chunks, "chunks")
    axes_match(env, s)
    y, x, e = s["axes"]
    env.check([(a["name"], a["navigate"]) for a in s["axes"]] == [("y", True), ("x", True), ("Energy", False)], "names and roles of the axes")
    if p:
        env.check(env.all(env.same(x["scale"], p["mppX"]), env.same(y["scale"], p["mppY"])), "pixel sizes")
        env.check((x["units"], y["units"], x["offset"], y["offset"]) == ("µm", "µm", 0, 0), "units of pixel sizes")
        h = s["original_metadata"]["ipr_header"]
        env.check(env.all(*[env.same(h[q] if isinstance(q, str) else h[q[0]][q[1]], z) for q, z in p.items()]), "every value of the image header")
        env.check([bytes(t) for t in h["charText"]] == [b"text %d" % j for j in range(4)], "comments of the image")
    else:
        env.check((x["scale"], y["scale"], x["units"], y["units"]) == (1, 1, None, None), "no pixel size")
    if v:
        check_spc(env, s, v, (26, 6, 8), 0.7 if full else 0.61, full, end)
    else:
        env.check((e["name"], e["scale"], e["units"]) == ("Energy", 1, None), "no energy calibration")
    h = s["original_metadata"]["spd_header"]
    env.check(env.all(h["version"] == ver, h["nFrames"] == fr, h["nSpectra"] == nx * ny, h["nPoints"] == nx, h["nLines"] == ny, h["nChannels"] == nz, h["countBytes"] == b, h["dataOffset"] == offset), "header of the map")
    env.check(bytes(h["tag"]).rstrip(b"\0") == b"MAPSPECTRA_DATA" and bytes(h["fName"]).rstrip(b"\0") == b"img_1.bmp", "tag and name of the image")
    env.check(s["metadata"]["General"] == {"original_filename": "map.spd", "title": "EDS Spectrum Image"} and s["metadata"]["Signal"]["signal_type"] == "EDS_SEM", "titles")
    env.cover("read")


CSV = ["EDAX", "Line Scan, one", "Date, 2021-02-03", "a, b, c", ""] + ["k%d, v%d" % (i, i) for i in range(9)]


def h_lsd(env, n, nz, b, end="<", lazy=False, csv=True, given=False, alloc=None, side=True, ext="lsd"):
    """line scan; room for alloc spectra, n of them stored"""
    from rsciio.edax import file_reader

    alloc = alloc or n
    cells, ver, fr = spd(env, end, alloc, 1, nz, b, 1068, nspec=n)
    raw = env.bytes("d", b * alloc * nz)
    put(cells, 1068, raw)
    fn = env.file("line." + ext, cells)
    k = {} if end == "<" else {"endianness": end}
    v = None
    if side:
        sc, v = spc(env, end, 0.61, 9)
        env.file("line.spc", sc)
    if csv:
        a, c = env.float("first"), env.float("second")
        pos = [a, c] + [env.float("p%d" % i) for i in range(2, n)]
        t = "\ufeff" + "\r\n".join(CSV + ["Point, Distance (nm), Fe K"] + ["%d, %s, %d" % (i + 1, q, 5 * i) for i, q in enumerate(map(str, pos[:n]))]) + "\r\n"
        cf = env.file("other.csv" if given else "line.csv", list(t.encode("utf-8")))
        if given:
            k["csv_fname"] = cf
    s = file_reader(fn, lazy=lazy, **k)[0]
    want = env.from_cells(raw, end + "u%d" % b, (alloc, nz))[:n]
    d = env.nd(s["data"])
    env.check(tuple(d.shape) == (n, nz), "one spectrum per point")
    env.check(env.same_array(d, want), "counts of every channel of every point")
    axes_match(env, s)
    x, e = s["axes"]
    env.check((x["name"], x["navigate"], e["name"], e["navigate"]) == ("x", True, "Energy", False), "names and roles of the axes")
    if csv:
        env.check(x["units"] == "nm" and env.all(env.same(x["offset"], a), env.same(x["scale"], c - a) if n > 1 else True), "distances")
        h = s["original_metadata"]["csv_header"]
        env.check(dict(h) == dict([("Line Scan", "one"), ("Date", "2021-02-03"), ("a", "b, c")] + [("k%d" % i, "v%d" % i) for i in range(9)]), "header of the list of distances")
    else:
        env.check((x["scale"], x["offset"], x["units"]) == (1, 0, None), "no distances")
    if v:
        check_spc(env, s, v, (26, 6, 8), 0.61, False, end)
    env.check(s["metadata"]["General"] == {"original_filename": "line." + ext, "title": "EDS Line Scan"}, "titles")
    env.cover("read")


def harnesses(tier):
    hs = []
    add = lambda name, f, p: hs.append(H(name, f, p, 90, F, "every count, calibration and header value named", ["read"]))
    for end in "<>":
        for lazy in (False, True):
            for full in (False, True):
                for ver in (0.61, 0.7):
                    add(f"spc {end} {ver} {full} {lazy}", h_spc, dict(end=end, version=ver, nz=7, start=20994 if full else 3840, full=full, lazy=lazy))
            add(f"spc start {end} {lazy}", h_spc, dict(end=end, version=0.61, nz=5, start=21001, full=False, lazy=lazy, elements=()))
            add(f"spc one {end} {lazy}", h_spc, dict(end=end, version=0.61, nz=1, start=21000, full=False, lazy=lazy, elements=(79,)))
            for b in (1, 2, 4):
                for shape in ((2, 3, 4), (3, 2, 2)) + (((1, 1, 1), (1, 3, 2), (3, 1, 2), (2, 2, 1)) if end == "<" else ()):
                    add(f"spd {shape} {b} {end} {lazy}", h_spd, dict(shape=shape, b=b, end=end, lazy=lazy))
                for n, nz in ((3, 4), (4, 3), (2, 2)) + (((3, 1), (1, 1), (1, 4)) if b == 2 else ()):
                    add(f"lsd {n} {nz} {b} {end} {lazy}", h_lsd, dict(n=n, nz=nz, b=b, end=end, lazy=lazy, csv=n > 1))
            for side in ("none", "spc", "ipr"):
                add(f"spd side {side} {end} {lazy}", h_spd, dict(shape=(2, 3, 2), b=2, end=end, lazy=lazy, side=side))
            add(f"spd given {end} {lazy}", h_spd, dict(shape=(2, 3, 2), b=2, end=end, lazy=lazy, given=True))
            add(f"spd full {end} {lazy}", h_spd, dict(shape=(2, 3, 2), b=2, end=end, lazy=lazy, full=True, ipr_version=333, offset=1075))
            add(f"lsd part {end} {lazy}", h_lsd, dict(n=3, nz=4, b=2, end=end, lazy=lazy, alloc=5))
            add(f"lsd given {end} {lazy}", h_lsd, dict(n=3, nz=4, b=2, end=end, lazy=lazy, given=True, ext="LSD"))
            add(f"lsd bare {end} {lazy}", h_lsd, dict(n=3, nz=4, b=2, end=end, lazy=lazy, csv=False, side=False))
    for ch in (((1, 1), (2, 1), (4,)), ((2,), (1, 2), (1, 3))):
        add(f"spd chunks {ch}", h_spd, dict(shape=(2, 3, 4), b=2, lazy=True, chunks=ch))
    add("spc chunks", h_spc, dict(end="<", version=0.61, nz=5, start=21000, full=False, lazy=True, chunks=(2,)))
    add("lsd one", h_lsd, dict(n=1, nz=3, b=2, csv=True))
    return hs
