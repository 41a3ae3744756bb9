"""NanoMegas TopSpin files (HDF5 with XML)."""
from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "h5py and the XML parser are trusted: the real ones run on a scratch file, whose data blocks are symbolic where the reader maps the file",
    "identifiers, texts, shapes and beam positions concrete (positions chosen by the solver); pixels, calibrations and stored numbers symbolic",
    "regular scans, beam positions equal within a row and a column",
]
F = ["rsciio.topspin._api." + n for n in ("file_reader", "_get_4D_axes", "_get_2D_axes", "_parse_app5_xml", "_parse_hspy_meta")]
G = ["39a4bbcd-2551-4912-9093-0eaed678dcff", "a0dba950-15bf-4a74-a81c-9cea8560c2c8", "18d9446f-22bf-4fb1-8d13-338174e75d20", "3526f008-a687-41fb-a21e-c21362241492", "b38446c6-6b25-4fee-9c62-6d8e4fcbeb5c"]


def cal(env, v, unit="Angle"):
    def one(t, o, s):
        return f'<{t} Serializer="ArrayCalibrationSerializer" Version="1"><Offset Serializer="Double" Version="1">{o}</Offset><Scale Serializer="Double" Version="1">{s}</Scale><Type Serializer="CalibrationTypeSerializer" Version="1"><Index Serializer="Int32" Version="1">2</Index><Text Serializer="String" Version="1">{unit}{t}</Text></Type></{t}>'

    return '<Calibration Serializer="ImageCalibrationSerializer" Version="1">' + one("X", *v[:2]) + one("Y", *v[2:]) + "</Calibration>"


def frame_xml(env, v, x, y):
    return f'<?xml version="1.0" encoding="utf-16"?>\n<Metadata Serializer="SeriesItemSerializer" Version="1">{cal(env, v)}<Metadata Serializer="DictionarySerializer" Version="1"><Item><Name Serializer="String" Version="1">RequestedBeamPosition</Name><Value Serializer="ImagePositionSerializer" Version="1"><X Serializer="Double" Version="1">{x!r}</X><Y Serializer="Double" Version="1">{y!r}</Y></Value></Item></Metadata></Metadata>'


def main_xml(env, ident, images=(), numbers=None, date="12/03/2024 17:42:58", flags=("True", "False")):
    n = numbers or {}
    items = ""

    def item(name, ser, text):
        return f'<Item><Name Serializer="String" Version="1">{name}</Name><Value Serializer="{ser}" Version="1">{text}</Value></Item>'

    items += item("Camera", "String", "AVT/Stingray µ")
    items += item("Angle", "Double", f"{n['Angle']}") if n else ""
    items += item("Count", "Int32", f"{n['Count']}") if n else ""
    items += item("Size", "UInt32", f"{n['Size']}") if n else ""
    items += item("Used", "Boolean", flags[0])
    for k, v in images:
        items += item("Image", "ImageDataSerializer", f'<Id Serializer="Guid" Version="1">{k}</Id>{cal(env, v, "Position")}<Metadata Serializer="DictionarySerializer" Version="1" />')
    hw = item("Lens", "LensSerializer", '<Value Serializer="Double" Version="1">%s</Value><Wobble Serializer="Boolean" Version="1">%s</Wobble><Precess Serializer="Boolean" Version="1">%s</Precess><Id Serializer="UInt32" Version="1">%s</Id><Text Serializer="String" Version="1">free</Text>' % (f"{n['Lens']}", flags[0], flags[1], f"{n['Id']}")) if n else ""
    return f'<?xml version="1.0" encoding="utf-8"?><Metadata Serializer="ProcedureDocumentSerializer" Version="2"><Id Serializer="Guid" Version="1">{ident}</Id><CreatedDateTime Serializer="DateTime" Version="1">{date}</CreatedDateTime><Title Serializer="String" Version="1">A title</Title><Comments /><Specimen Serializer="String" Version="1">Gold</Specimen><ProcedureData>{items}</ProcedureData><HardwareSettings>{hw}</HardwareSettings></Metadata>'


def text(g, name, s):
    g.create_dataset(name, data=np.bytes_(s.encode()))


class File:
    """an .app5 file, data blocks filled in with symbolic values where they lie"""

    def __init__(self, env):
        import h5py

        self.env, self.blocks, self.late = env, [], []
        self.f = h5py.File(env.path("a.app5"), "w")

    def frames(self, g, name, n, shape, dtype, cals, xs, ys, order=None):
        """scan of frames, rows first"""
        env = self.env
        ly, lx = n
        grp = g.create_group(name)
        out = {}
        for k in order or range(ly * lx):
            i, j = divmod(k, lx)
            s = grp.create_group(str(k))
            text(s, "Metadata", frame_xml(env, cals, xs[j], ys[i]))
            d = s.create_dataset("Data", shape=shape, dtype=dtype, data=np.ones(shape, dtype))
            c = env.bytes(f"d{name[:4]}_{k}", int(np.prod(shape)) * np.dtype(dtype).itemsize)
            self.blocks.append((d, c))
            out[k] = env.from_cells(c, dtype, shape)
        return out

    def close(self):
        pos = [(d.id.get_offset(), c) for d, c in self.blocks]
        self.f.close()
        if self.blocks:
            cells = list(open(self.env.path("a.app5"), "rb").read())
            for o, c in pos:
                cells[o : o + len(c)] = list(c)
            self.env.file("a.app5", cells)

    def read(self, **kw):
        from rsciio.topspin import file_reader

        self.close()
        return file_reader(self.env.path("a.app5"), show_progressbar=False, **kw)


def calibration(env, name):
    v = [env.float(name + k) for k in ("xo", "xs", "yo", "ys")]
    for x in v:
        env.assume(env.all(x >= -1.0, x <= 1.0))
    return v


def near(a, b):
    return abs(float(a) - float(b)) <= 2e-3 + 1e-6 * abs(float(b))


def check_scan(env, s, frames, n, shape, cals, xs, ys):
    ly, lx = n
    keep = [k for k, v in ((0, ly), (1, lx)) if v > 1] + [2, 3]
    want = tuple((ly, lx) + shape)
    env.check(tuple(s["data"].shape) == tuple(want[k] for k in keep), "shape")
    d = env.nd(s["data"]).reshape((ly * lx,) + shape)
    env.check(env.all(*[env.same_array(d[k], frames[k]) for k in range(ly * lx)]), "every frame at its position of the scan")
    env.check([a["name"] for a in s["axes"]] == [("y", "x", "ky", "kx")[k] for k in keep], "axes")
    env.check([a["index_in_array"] for a in s["axes"]] == list(range(len(keep))), "order of the axes in the data")
    env.check([a["size"] for a in s["axes"]] == [want[k] for k in keep], "size of the axes")
    for a, k in zip(s["axes"], keep):
        if k < 2:
            p = (ys, xs)[k]
            env.check(a["navigate"] is True and a["units"] == "nm", "navigation axis")
            env.check(env.all(*[near(a["offset"] + i * a["scale"], q * 1e9) for i, q in enumerate(p)]), "position of every frame")
        else:
            o, sc = (cals[2:], cals[:2])[k - 2]
            env.check(a["navigate"] is False and a["units"] == "Angle" + "YX"[k - 2], "signal axis")
            env.check(env.all(env.same(a["offset"], o), env.same(a["scale"], sc)), "calibration of the frames")
    env.check(s["metadata"]["Signal"]["signal_type"] == "electron_diffraction", "signal type")


def check_image(env, s, data, v, strict=False):
    env.check(env.same_array(s["data"], data), "every pixel of the image")
    env.check([(a["name"], a["size"], a["index_in_array"], a["navigate"]) for a in s["axes"]] == [("y", data.shape[0], 0, False), ("x", data.shape[1], 1, False)], "axes of the image")
    def cal_is(*w):
        return env.all(*[env.all(env.same(a["offset"], o * 1e9), env.same(a["scale"], sc * 1e9)) for a, (o, sc) in zip(s["axes"], w)])

    right = cal_is(v[2:], v[:2])
    # exchanged X and Y calibrations are the known finding F122
    env.check(right if strict else env.any(right, cal_is(v[:2], v[2:])), "calibration of the image")


def positions(env, n, step, o, down=False):
    p = [o + i * step for i in range(n)]
    return p[::-1] if down else p


def h_scan(env, n, shape, dtype="<f4", down=(False, False), order=None):
    sx = env.choose("sx", [5e-9, 1e-9, 2.5e-7])
    sy = env.choose("sy", [5e-9, 3e-8])
    xs = positions(env, n[1], sx, env.choose("x0", [9.98449095547303e-08, -1e-6, 0.0]), down[1])
    ys = positions(env, n[0], sy, env.choose("y0", [-6.3995245825603e-07, 2e-7]), down[0])
    f = File(env)
    v = calibration(env, "c")
    nums = {"Angle": env.float("angle"), "Count": env.int("count", -2**31, 2**31 - 1), "Size": env.int("size", 0, 2**32 - 1), "Lens": env.float("lens"), "Id": env.int("id", 0, 2**32 - 1)}
    flags = env.choose("flags", [("True", "False"), ("False", "True")])
    text(f.f, "Metadata", main_xml(env, G[2], numbers=nums, flags=flags))
    text(f.f, "Version", "1")
    fr = f.frames(f.f, G[1], n, shape, dtype, v, xs, ys, order)
    out = f.read()
    env.check(len(out) == 1, "one dataset")
    s = out[0]
    check_scan(env, s, fr, n, shape, v, xs, ys)
    om, g = s["original_metadata"], s["metadata"]["General"]
    p = om["ProcedureData"]
    env.check(env.all(*[env.same(p[k], nums[k]) for k in ("Angle", "Count", "Size")]) and p["Camera"] == "AVT/Stingray µ", "values of the procedure")
    lens = om["HardwareSettings"]["Lens"]
    env.check(env.all(env.same(lens["Value"], nums["Lens"]), env.same(lens["Id"], nums["Id"])) and lens["Text"] == "free", "values of the hardware")
    env.check((str(p["Used"]), str(lens["Wobble"]), str(lens["Precess"])) == (flags[0], flags[0], flags[1]), "switches")
    env.check((g["title"], g["date"], g["time"], g["original_filename"]) == (G[2], "2024-12-03", "17:42:58", "a.app5"), "title and date")
    env.check("Title:  A title" in g["notes"] and s["metadata"]["Sample"]["description"] == "Gold", "notes and sample")
    env.cover("read")


def h_images(env, which):
    """several sessions of one file, all of it, one session or one dataset"""
    f = File(env)
    va, vb, vc, vf = (calibration(env, k) for k in "abcf")
    a, b, c = env.array("ia", (2, 3), "float64"), env.array("ib", (3, 1), "uint16"), env.array("ic", (1, 2), "float32")
    g1, g2 = f.f.create_group(G[2]), f.f.create_group(G[4])
    text(f.f, "Version", "1")
    text(g1, "Metadata", main_xml(env, G[2], [(G[4], vc), (G[0], va), (G[1], vb)]))
    text(g2, "Metadata", main_xml(env, G[4], [(G[1], vc)], date="01/02/1999 01:02:03"))
    g1.create_dataset(G[0], data=a)
    g1.create_dataset(G[1], data=b)
    g1.create_dataset("Thumbnail", data=np.zeros(3, "u1"))
    g2.create_dataset(G[1], data=c)
    xs, ys = [1e-9, 3e-9], [2e-9, 6e-9]
    fr = f.frames(g1, G[3], (2, 2), (2, 2), "<f4", vf, xs, ys)
    kw = {"all": {}, "session": {"dataset_path": G[2]}, "single": {"dataset_path": G[2] + "/" + G[1]}, "second": {"dataset_path": G[4]}, "single2": {"dataset_path": G[4] + "/" + G[1]}}[which]
    out = f.read(**kw)
    first = [(G[3], None, None), (G[0], a, va), (G[1], b, vb)]
    want = {"all": first + [(G[1], c, vc)], "session": first, "single": first[2:], "second": [(G[1], c, vc)], "single2": [(G[1], c, vc)]}[which]
    env.check(len(out) == len(want), "the datasets asked for")
    for s, (k, d, v) in zip(out, want):
        if d is None:
            check_scan(env, s, fr, (2, 2), (2, 2), vf, xs, ys)
        else:
            check_image(env, s, d, v)
        ident = G[4] if d is c else G[2]
        env.check(s["metadata"]["General"]["title"] == ident and s["original_metadata"]["Id"] == ident, "metadata of its own session")
        env.check(s["metadata"]["General"]["date"] == ("1999-01-02" if d is c else "2024-12-03"), "date of its own session")
    env.cover("read")


def h_uncal(env):
    f = File(env)
    a = env.array("ia", (2, 3), "uint8")
    text(f.f, "Metadata", main_xml(env, G[2], [(G[1], calibration(env, "a"))]))
    f.f.create_dataset(G[0], data=a)
    out = f.read(dryrun=False)
    env.check(len(out) == 1 and env.same_array(out[0]["data"], a), "image without calibration")
    env.check([x["size"] for x in out[0]["axes"]] == [2, 3], "size")
    env.cover("read")


def k_image(env):
    f = File(env)
    a, v = np.ones((2, 3)), [1e-9, 2e-9, 3e-9, 4e-9]
    text(f.f, "Metadata", main_xml(env, G[2], [(G[0], v)]))
    f.f.create_dataset(G[0], data=a)
    check_image(env, f.read()[0], a, v, strict=True)


KNOWN = {"F122": k_image}


def harnesses(tier):
    hs = []

    def add(name, fn, p, budget=60):
        hs.append(H(name, fn, p, budget=budget, functions=F, bounds="scans of up to 3 x 4 frames of up to 3 x 3 pixels", covers=["read"]))

    for n in ((1, 1), (1, 3), (3, 1), (2, 2), (3, 3), (2, 3), (3, 4)):
        add(f"scan {n[0]}x{n[1]}", h_scan, dict(n=n, shape=(2, 3)))
    add("scan uint8", h_scan, dict(n=(2, 2), shape=(3, 2), dtype="|u1"))
    add("scan i2 frames of one row", h_scan, dict(n=(2, 2), shape=(1, 3), dtype="<i2"))
    for d in ((True, False), (False, True), (True, True)):
        for n in ((3, 2), (2, 3), (3, 3), (1, 3), (3, 1)):
            add(f"scan {n[0]}x{n[1]} downwards {d}", h_scan, dict(n=n, shape=(2, 1), down=d))
    add("scan written in another order", h_scan, dict(n=(3, 4), shape=(1, 2), order=[11, 3, 0, 5, 10, 1, 2, 9, 8, 4, 7, 6]))
    for w in ("all", "session", "single", "second", "single2"):
        add(f"images {w}", h_images, dict(which=w))
    add("image without calibration", h_uncal, {})
    return hs
