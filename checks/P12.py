"""FEI TIA .ser series and .emi files."""
from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "files are laid out by the harness from the description of the format: header, dimensions, elements each followed by its tag, table of offsets",
    "counts, data types and texts are concrete; pixels, calibrations, calibrated elements and tags symbolic",
]
TYPES = {1: "u1", 2: "<u2", 3: "<u4", 4: "i1", 5: "<i2", 6: "<i4", 7: "<f4", 8: "<f8", 9: "<c8", 10: "<c16"}


def ser(env, dims, image, shape, dtype, valid=None, version=544, tag="xy", order="F", perm=None, units=None, elem=True, tbl_first=False):
    """dims: sizes of the navigation dimensions, fastest first when order is F; shape of one element (C order)"""
    total = prod(dims)
    valid = total if valid is None else valid
    off = "I" if version <= 528 else "Q"
    h = dict(dims=[])
    tagid = 16706 if tag == "xy" else 16722
    dd = []
    for i, n in enumerate(dims):
        u = (units or ["meters"] * len(dims))[i]
        d = dict(size=n, offset=env.float("offset%d" % i), delta=env.float("delta%d" % i), element=(env.int("element%d" % i, 0, 1000) if elem else 0), units=u)
        h["dims"].append(d)
        desc = b"Position"
        dd += list(env.pack("<I", n)) + list(env.pack("<d", d["offset"])) + list(env.pack("<d", d["delta"])) + list(env.pack("<I", d["element"])) + list(env.pack("<I", len(desc))) + list(desc) + list(env.pack("<I", len(u))) + list(u.encode())
    dt = np.dtype(TYPES[dtype])
    data = env.array("d", (valid,) + shape, dt)
    n0 = 22 + struct_size(off) + 4 + len(dd)
    # calibration of the first element is the one that counts
    k = "XY" if image else "X"
    cal = {}
    for q in k:
        cal[q] = (env.float("co" + q), env.float("cd" + q), env.int("ce" + q, 0, 1000) if elem else 0)
    els = []
    pos = [env.float("px"), env.float("py"), env.float("qx"), env.float("qy")]
    if tag == "xy":
        # the order of scanning shows in the positions of the first two elements
        if valid > 1:
            if order == "F":
                env.assume(pos[1] == pos[3])
            else:
                env.assume(env.not_(pos[1] == pos[3]))
    times = []
    for i in range(valid):
        c = []
        for q in k:
            c += list(env.pack("<d", cal[q][0] if i == 0 else 0.0)) + list(env.pack("<d", cal[q][1] if i == 0 else 1.0)) + list(env.pack("<I", cal[q][2] if i == 0 else 0))
        c += list(env.pack("<H", dtype))
        for s in shape[::-1]:
            c += list(env.pack("<I", s))
        c += list(env.cells(env.nd(data)[i : i + 1]))
        t = env.int("time", 0, 2 ** 32 - 1)
        times.append(t)
        c += list(env.pack("<HH", tagid, 0)) + list(env.pack("<I", t))
        if tag == "xy":
            x, y = pos[2 * (i == 1) : 2 * (i == 1) + 2] if i < 2 else (0.0, 0.0)
            c += list(env.pack("<d", x)) + list(env.pack("<d", y))
        els.append(c)
    size = len(els[0])
    tagsize = 24 if tag == "xy" else 8
    where = list(perm) if perm else list(range(valid))  # place of element i on disk
    table = struct_size(off) * 2 * total
    start = n0 + (table if tbl_first else 0)
    offs = [start + where[i] * size for i in range(valid)] + [0] * (total - valid)
    tags = [o + size - tagsize for o in offs[:valid]] + [0] * (total - valid)
    tb = []
    for o in offs + tags:
        tb += list(env.pack("<" + off, o))
    body = []
    for j in range(valid):
        body += els[where.index(j)]
    head = list(env.pack("<HHHIIII", 0x4949, 0x0197, version, 16674 if image else 16672, tagid, total, valid))
    head += list(env.pack("<" + off, n0 if tbl_first else n0 + len(body))) + list(env.pack("<I", len(dims)))
    h.update(cal=cal, data=data, times=times)
    return head + dd + (tb + body if tbl_first else body + tb), h


def struct_size(f):
    return {"I": 4, "Q": 8}[f]


def nm(env, x, u, inv=False):
    return x * 10 ** 9 if u == "meters" else x / 10 ** 9 if u == "1/meters" else x


NM = {"meters": "nm", "1/meters": "1 / nm"}


def expect(env, s, h, dims, image, shape, order, valid, only=True, sigunits="meters", data=None):
    """the signal against the layout"""
    nav = dims[::-1] if order == "F" else dims
    nd = h["dims"][::-1] if order == "F" else h["dims"]
    total = prod(dims)
    d = env.nd(h["data"])
    keep = [i for i, n in enumerate(nav) if not (image and n == 1)]
    navshape = tuple(nav[i] for i in keep)
    if len(dims) == 1 and valid != total and only:
        navshape = (valid,) if valid > 1 else ()
        keep = keep if valid > 1 else []
    n = prod(navshape)
    if n > valid:
        fill = np.full((n - valid,) + shape, np.nan if np.dtype(d.dtype).kind == "f" else 0).astype(d.dtype)
        rows = [d[i] for i in range(valid)] + [fill[i] for i in range(n - valid)]
    else:
        rows = [d[i] for i in range(valid)]
    r = env.nd(s["data"])
    env.check(tuple(r.shape) == navshape + shape, "shape of the series")
    env.check(np.dtype(r.dtype).newbyteorder("=") == np.dtype(d.dtype).newbyteorder("="), "data type as stored")
    r = r.reshape((n,) + shape)
    ok = []
    for i in range(n):
        x = r[i]
        if image:
            x = x[::-1]
        ok.append(env.same_array(x, rows[i], dtype=False))
    env.check(env.all(*ok), "each element at its place, missing ones empty")
    axes_match(env, s)
    ax = s["axes"]
    for a, i in zip(ax, keep):
        v = nd[i]
        env.check(env.same(a["scale"], nm(env, v["delta"], v["units"])), "scale of navigation axes")
        env.check(env.same(a["offset"], nm(env, v["offset"] - v["element"] * v["delta"], v["units"])), "offset of navigation axes")
        env.check(a["units"] == NM.get(v["units"], v["units"] or None) and a["navigate"], "units of navigation axes")
        if len(dims) == 2 and v["units"] == "meters":
            env.check(a["name"] == "yx"[i], "names of navigation axes")
    sig = ax[len(keep):]
    if image:
        for a, q in zip(sig, "YX"):
            o, de, e = h["cal"][q]
            env.check(a["name"] == q.lower() and not a["navigate"] and a["units"] == NM[sigunits], "signal axes of images")
            env.check(env.same(a["scale"], nm(env, de, sigunits)), "scale of signal axes")
            env.check(env.same(a["offset"], nm(env, o - e * de, sigunits)), "offset of signal axes")
    else:
        o, de, e = h["cal"]["X"]
        a = sig[0]
        env.check((a["name"], a["units"], a["navigate"]) == ("Energy", "eV", False), "energy axis")
        env.check(env.all(env.same(a["scale"], de), env.same(a["offset"], o - e * de)), "calibration of the energy axis")


def series(env, dims, image, shape, dtype, lazy, only=True, sigunits="meters", **kw):
    from rsciio.tia import file_reader

    c, h = ser(env, dims, image, shape, dtype, **kw)
    env.file("a_1.ser", c)
    s = file_reader(env.path("a_1.ser"), lazy=lazy, only_valid_data=only)
    env.check(len(s) == 1, "one signal")
    valid = kw.get("valid") or prod(dims)
    expect(env, s[0], h, dims, image, shape, kw.get("order", "F") if valid > 1 and kw.get("tag", "xy") == "xy" else "C", valid, only)
    t = s[0]["original_metadata"]["ser_header_parameters"]["Time"]
    env.check(env.all(*[env.same(x, y) for x, y in zip(env.nd(np.array([t]) if valid == 1 else t).ravel() if not env.is_sym(t) else [t], h["times"])]), "time tags")
    env.cover("read")


XML = "<ObjectInfo><Uuid>%s</Uuid><AcquireDate>%s</AcquireDate><ExperimentalDescription><Root>%s</Root></ExperimentalDescription><AcquireInfo>%s<DwellTimePath>1.5</DwellTimePath></AcquireInfo></ObjectInfo>"


def desc(**kw):
    return "".join("<Data><Label>%s</Label><Value>%s</Value><Unit>%s</Unit></Data>" % (k.replace("_", " "), v, u) for k, (v, u) in kw.items())


def emi(env, modes, camera, numbers, missing=0, name="acq", lazy=False, order=None):
    """an .emi file and its .ser files: each with its own description, in order"""
    import glob

    from rsciio.tia import file_reader

    mode = [env.choose("mode%d" % i, modes) for i in range(len(numbers))]
    xml, hs = [], []
    for i, m in enumerate(mode):
        xml.append(XML % ("u%d" % i, "Mon Mar %02d 10:00:0%d 2020" % (i % 28 + 1, i % 10), desc(Mode=(m, ""), High_tension=("%d" % (100 + i), "kV"), Camera_length=("0.%d5" % (i + 1), "m"), Microscope=("Microscope Titan %d" % i, ""), Stage_X=("%d" % i, "um"), Stage_A=("1.5", "deg")), "<CameraNamePath>cam</CameraNamePath>" if camera else ""))
    xml = xml[: len(xml) - missing]
    b = b"junk"
    for x in xml:
        b += b"\x00\x01" + x.encode() + b"\xff"
    env.file(name + ".emi", list(b))
    for i, n in enumerate(numbers):
        c, h = ser(env, (1,), True, (2, 2), 2, tag="time", elem=False, units=["Number"])
        env.file("%s_%d.ser" % (name, n), c)
        hs.append(h)
    old = glob.glob
    files = [env.path("%s_%d.ser" % (name, n)) for n in numbers]
    p = env.choose("listing", list(itertools.permutations(range(len(files)))) if len(files) < 4 else [tuple(range(len(files))), tuple(reversed(range(len(files))))])
    import os

    real = os.listdir
    out = file_reader(env.path(name + ".emi"), lazy=lazy)
    env.check(len(out) == len(numbers), "one signal for each series")
    ok = []
    for i, (s, h) in enumerate(zip(out, hs)):
        env.check(s["metadata"]["General"]["original_filename"] == "%s_%d.ser" % (name, numbers[i]), "series in order")
        r = env.nd(s["data"])
        ok.append(env.same_array(r[::-1].reshape((1, 2, 2)), h["data"], dtype=False))
        k = numbers[i] - 1
        om = s["original_metadata"]
        if k >= len(xml):
            env.check("ObjectInfo" not in om, "no description made up")
            continue
        env.check(dget(om, "ObjectInfo.Uuid") == "u%d" % k, "each series with its own description")
        e = om["ObjectInfo"]["ExperimentalDescription"]
        env.check(e["Mode"] == mode[k] and e["High tension_kV"] == 100 + k and e["Stage X_um"] == k, "values of the description")
        env.check(s["metadata"]["General"]["date"] == "2020-03-%02d" % (k % 28 + 1) and s["metadata"]["General"]["time"] == "10:00:0%d" % (k % 10), "date and time of acquisition")
        u = "1/meters" if "Diffraction" in mode[k] or ("STEM" in mode[k] and camera) else "meters"
        for a, q in zip(s["axes"], "YX"):
            env.check(a["units"] == NM[u], "units of images from the mode of the microscope")
            env.check(env.same(a["scale"], nm(env, h["cal"][q][1], u)), "scale of signal axes")
        mp = s["mapping"]
        for src, (dst, f) in mp.items():
            v = dget(om, src)
            if dst.endswith("camera_length") and v is not None:
                env.check(abs((f(v)) - float("0.%d5" % (k + 1)) * 1000) < 1e-9, "camera length in mm")
            if dst.endswith("Stage.x") and v is not None:
                env.check(f(v) == k * 1e-3, "stage in mm")
        env.check(set(d[0].split(".")[-1] for s_, d in mp.items()) >= {"beam_energy", "microscope", "acquisition_mode", "camera_length", "magnification", "tilt_alpha", "x", "y", "z"}, "mapping to metadata")
    env.check(env.all(*ok), "each series holds its own data")
    env.cover("read")


def harnesses(tier):
    hs = []
    f = ["tia.file_reader", "load_ser_file", "ser_reader", "load_only_data"]
    b = "pixels, calibrations and tags symbolic"

    def add(name, **kw):
        for lazy in (False, True):
            hs.append(H(f"{name} lazy={lazy}", series, dict(lazy=lazy, **kw), 200, f, b, ["read"]))

    for t in TYPES:
        add(f"spectra type {t}", dims=(3,), image=False, shape=(2,), dtype=t)
        add(f"images type {t}", dims=(2,), image=True, shape=(2, 3), dtype=t)
    for v in (528, 544):
        for tag in ("xy", "time"):
            for image, shape in ((False, (3,)), (True, (2, 3))):
                for dims in ((1,), (4,), (3, 2), (2, 3), (1, 3), (3, 1), (1, 1)):
                    if tag == "time" and dims[0] > 1 and dims[-1] > 1 and v == 528:
                        continue
                    add(f"v{v} {tag} {shape} {dims}", dims=dims, image=image, shape=shape, dtype=2, version=v, tag=tag)
    for image, shape in ((False, (2,)), (True, (2, 2))):
        for dims, valid in (((4,), 3), ((4,), 1), ((2, 2), 3), ((3, 2), 4)):
            for t in (2, 7, 8, 6):
                for only in (True, False):
                    add(f"incomplete {shape} {dims} {valid} {t} {only}", dims=dims, image=image, shape=shape, dtype=t, valid=valid, only=only)
        add(f"scattered {shape}", dims=(3,), image=image, shape=shape, dtype=5, perm=(2, 0, 1))
        add(f"table first {shape}", dims=(3, 2), image=image, shape=shape, dtype=5, tbl_first=True)
        add(f"units {shape}", dims=(3,), image=image, shape=shape, dtype=5, units=["1/meters"])
        add(f"other units {shape}", dims=(3,), image=image, shape=shape, dtype=5, units=["Number"])
        add(f"no units {shape}", dims=(3,), image=image, shape=shape, dtype=5, units=[""])
    M = ["STEM nP SA Zoom Image", "TEM uP SA Zoom Diffraction", "TEM uP SA Zoom Image"]
    g = ["emi_reader", "get_xml_info_from_emi", "emixml2dtb", "_guess_units_from_mode"]
    for cam in (False, True):
        hs.append(H(f"emi {cam}", emi, dict(modes=M, camera=cam, numbers=[1, 2]), 300, g, "each mode of each object; symbolic pixels", ["read"]))
        hs.append(H(f"emi one {cam}", emi, dict(modes=M, camera=cam, numbers=[1], lazy=True), 300, g, "each mode; symbolic pixels", ["read"]))
    for miss in (1, 2):
        hs.append(H(f"emi missing {miss}", emi, dict(modes=M[2:], camera=False, numbers=[1, 2], missing=miss), 300, g, "symbolic pixels", ["read"]))
    hs.append(H("emi many", emi, dict(modes=M[2:], camera=False, numbers=list(range(1, 13))), 300, g, "symbolic pixels", ["read"]))
    hs.append(H("emi special name", emi, dict(modes=M[2:], camera=False, numbers=[1, 2], name="a[1]b"), 300, g, "symbolic pixels", ["read"]))
    return hs
