"""Gatan DM3/DM4 files."""
import re

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "files are laid out by the harness from the published description of the DM3/DM4 format; texts, tag names and sizes are concrete, all numbers in the tags and all pixels symbolic",
    "the orientation of 8/16-byte packed complex images (data types 27, 28) is not part of the claim; RGB images are read eagerly only",
    "the mapping to metadata is applied by the harness in the way HyperSpy does (items looked up by path, spaces and underscores alike)",
]
SIMPLE = {2: "h", 3: "i", 4: "H", 5: "I", 6: "f", 7: "d", 8: "B", 9: "b", 10: "b", 11: "q", 12: "Q"}
RANGE = {2: (-2 ** 15, 2 ** 15 - 1), 3: (-2 ** 31, 2 ** 31 - 1), 4: (0, 65535), 5: (0, 2 ** 32 - 1), 8: (0, 255), 10: (-128, 127), 11: (-2 ** 63, 2 ** 63 - 1), 12: (0, 2 ** 64 - 1)}


class W:
    """writer of DM tags"""

    def __init__(self, env, ver, endian):
        self.env, self.ver, self.en = env, ver, endian
        self.e = "<" if endian == "little" else ">"
        self.c = []
        self.n = 0

    def pk(self, f, *a):
        self.c += list(self.env.pack(f, *a))

    def lq(self, v):
        self.pk(">q" if self.ver == 4 else ">i", v)

    def head(self, tid, name):
        b = name.encode("latin-1") if not isinstance(name, bytes) else name
        self.pk(">BH", tid, len(b))
        self.c += list(b)
        if self.ver == 4:
            self.pk(">q", 0)

    def group(self, name, items, root=False):
        if not root:
            self.head(20, name)
        self.pk(">BB", 1, 0)
        self.lq(len(items))
        for it in items:
            self.item(*it)

    def item(self, name, kind, *a):
        if kind == "group":
            return self.group(name, *a)
        self.head(21, name)
        self.c += list(b"%%%%")
        if kind == "simple":
            self.lq(1)
            self.lq(a[0])
            self.pk(self.e + SIMPLE[a[0]], a[1])
        elif kind == "string":
            self.lq(2)
            self.lq(18)
            self.lq(len(a[0]))
            self.c += list(a[0])
        elif kind == "array":
            t, vals = a
            self.lq(3)
            self.lq(20)
            self.lq(t)
            self.lq(len(vals))
            for v in vals:
                self.pk(self.e + SIMPLE[t], v)
        elif kind == "text":
            self.item_text(a[0])
        elif kind == "struct":
            self.lq(3 + 2 * len(a[0]))
            self.struct(a[0])
            self.vals(a[0])
        elif kind == "structs":
            self.lq(4 + 2 * len(a[0][0]))
            self.lq(20)
            self.struct(a[0][0])
            self.lq(len(a[0]))
            for s in a[0]:
                self.vals(s)
        elif kind == "arrays":
            t, rows = a
            self.lq(5)
            self.lq(20)
            self.lq(20)
            self.lq(t)
            self.lq(len(rows[0]))
            self.lq(len(rows))
            for r in rows:
                for v in r:
                    self.pk(self.e + SIMPLE[t], v)
        elif kind == "data":
            # bytes of an image: element type, number of elements, cells
            t, n, cells = a
            if isinstance(t, tuple):
                self.lq(4 + 2 * len(t))
                self.lq(20)
                self.struct([(x, None) for x in t])
                self.lq(n)
            else:
                self.lq(3)
                self.lq(20)
                self.lq(t)
                self.lq(n)
            self.c += list(cells)

    def item_text(self, s):
        u = s.encode("utf-16-le")
        self.lq(3)
        self.lq(20)
        self.lq(4)
        self.lq(len(u) // 2)
        for i in range(0, len(u), 2):
            self.pk(self.e + "H", u[i] + 256 * u[i + 1])

    def struct(self, fields):
        self.lq(15)
        self.lq(0)
        self.lq(len(fields))
        for t, _ in fields:
            self.lq(0)
            self.lq(t)

    def vals(self, fields):
        for t, v in fields:
            self.pk(self.e + SIMPLE[t], v)

    def file(self, items):
        w = self
        w.pk(">i", self.ver)
        w.lq(123)
        w.pk(">i", 1 if self.en == "little" else 0)
        w.group("", items, root=True)
        w.c += [0] * 8
        return w.c


def expect(items):
    """the tree of tags, as a dictionary"""
    d = {}
    nd = ng = 0
    for name, kind, *a in items:
        name = name.replace(".", "")
        if not name:
            if kind == "group":
                name = "TagGroup%i" % ng
                ng += 1
            else:
                name = "Data%i" % nd
                nd += 1
        d[name] = (expect(a[0]) if kind == "group" else a[1] if kind == "simple" else a[0].decode("latin-1") if kind == "string" else a[0] if kind == "text" else
                   list(a[1]) if kind == "array" else tuple(v for _, v in a[0]) if kind == "struct" else [tuple(v for _, v in s) for s in a[0]] if kind == "structs" else
                   [list(r) for r in a[1]] if kind == "arrays" else None)
    return d


def equal(env, a, b):
    if isinstance(b, dict):
        return hasattr(a, "keys") and sorted(a) == sorted(b) and env.all(*[equal(env, a[k], b[k]) for k in b])
    if isinstance(b, (list, tuple)):
        return isinstance(a, type(b)) and len(a) == len(b) and env.all(*[equal(env, x, y) for x, y in zip(a, b)])
    if isinstance(b, (str, bool)) or b is None:
        return type(a) is type(b) and a == b
    return env.same(a, b)


class V:
    def __init__(self, env):
        self.env, self.n = env, 0

    def __call__(self, t):
        self.n += 1
        if t in (6, 7):
            return self.env.float("v%d" % self.n, SIMPLE[t])
        return self.env.int("v%d" % self.n, *RANGE.get(t, (-128, 127)))


def image(env, w, shape, dcode, cells, n, etype, tags=(), name="img", dims=None, bright=None, v=None, extra=()):
    """an entry of ImageList; shape in DM order X, Y, Z; dims: list of (origin, scale, units)"""
    d = [] if dims is None else dims
    b = bright or (0.0, 1.0, "")
    return ("", "group", [
        ("ImageData", "group", [
            ("Calibrations", "group", [
                ("Brightness", "group", [("Origin", "simple", 6, b[0]), ("Scale", "simple", 6, b[1]), ("Units", "text", b[2])]),
                ("Dimension", "group", [("", "group", [("Origin", "simple", 6, o), ("Scale", "simple", 6, s), ("Units", "text", u)]) for o, s, u in d]),
            ]),
            ("Data", "data", etype, n, cells),
            ("DataType", "simple", 5, dcode),
            ("Dimensions", "group", [("", "simple", 5, s) for s in shape]),
            ("PixelDepth", "simple", 5, 1),
        ]),
        ("ImageTags", "group", list(tags)),
        ("Name", "text", name),
    ] + list(extra))


def read(env, w, items, lazy=False, **k):
    from rsciio.digitalmicrograph import file_reader

    fn = env.path("a.dm%d" % w.ver)
    env.file("a.dm%d" % w.ver, w.file(items))
    return file_reader(fn, lazy=lazy, **k)


def tags(env, ver, endian, what):
    w = W(env, ver, endian)
    v = V(env)
    T = {
        "simple": [("s%d" % t, "simple", t, v(t)) for t in SIMPLE if t != 9],
        "arrays": [("a%d" % t, "array", t, [v(t), v(t), v(t)]) for t in SIMPLE if t not in (4, 9)] + [("e", "array", 6, []), ("txt", "text", "µ text €"), ("empty", "array", 4, []), ("aa", "arrays", 3, [[v(3), v(3)], [v(3), v(3)], [v(3), v(3)]])],
        "structs": [("st", "struct", [(2, v(2)), (6, v(6)), (12, v(12)), (8, v(8))]), ("ss", "structs", [[(3, v(3)), (7, v(7))], [(3, v(3)), (7, v(7))]]), ("str", "string", b"plain"), ("after", "simple", 3, v(3))],
        "nested": [("A", "group", [("", "simple", 3, v(3)), ("", "group", [("x.y", "simple", 7, v(7))]), ("", "simple", 2, v(2)), ("", "group", []), ("", "group", [("", "simple", 10, v(10))])]), ("B", "group", [("n", "simple", 3, v(3)), ("C", "group", [("D", "group", [("e", "simple", 5, v(5))])])]), ("last", "simple", 11, v(11))],
        "names": [("µ", "simple", 3, v(3)), ("a" * 300, "simple", 3, v(3)), ("Data", "simple", 3, v(3)), ("ImageData", "group", [("Other", "array", 3, [v(3), v(3)])]), ("z", "simple", 3, v(3))],
    }[what]
    cells = env.cells(env.array("d", (2,), "int16"))
    img = image(env, w, (2,), 1, cells, 2, 2, dims=[(0.0, 1.0, "")])
    items = T + [("ImageList", "group", [img])] + [("Tail", "simple", 3, v(3))]
    s = read(env, w, items)
    env.check(len(s) == 1, "one image")
    om = dict(s[0]["original_metadata"])
    root = om.get("root", om)
    exp = expect(T + [("Tail", "simple", 3, items[-1][3])])
    got = {k: x for k, x in om.items() if k not in ("ImageList", "root")}
    env.check(equal(env, got, exp), "every tag is returned under its name with its value")
    env.cover("read")


DT = {1: ("int16", 2), 2: ("float32", 6), 3: ("complex64", (6, 6)), 6: ("uint8", 8), 7: ("int32", 3), 9: ("int8", 10), 10: ("uint16", 4), 11: ("uint32", 5), 12: ("float64", 7), 13: ("complex128", (7, 7)), 14: ("bool", 8)}


def img(env, ver, endian, dcode, shape, lazy, order=None, chunks="auto", ndims=None, fmt=None, signal=None, units=None, extra=0):
    """shape in numpy order"""
    w = W(env, ver, endian)
    dt, et = DT[dcode]
    data = env.array("d", shape, np.dtype(dt).newbyteorder(w.e))
    n = prod(shape)
    nd = len(shape)
    k = nd if ndims is None else ndims
    units = units or ["u%d" % i for i in range(nd)]
    ds = [(env.float("o%d" % i, "f"), env.float("s%d" % i, "f"), units[nd - 1 - i]) for i in range(k)]
    md = []
    if fmt:
        md.append(("Format", "text", fmt))
    if signal:
        md.append(("Signal", "text", signal))
    br = (env.float("bo", "f"), env.float("bs", "f"), "e-")
    store = data if order != "F" else env.nd(data).transpose(*range(nd)[::-1])
    im = image(env, w, shape[::-1], dcode, env.cells(store), n, et, tags=[("Meta Data", "group", md)] if md else [], dims=ds, bright=br)
    s = read(env, w, [("ImageList", "group", [im])], lazy=lazy, order=order, chunks=chunks)[0]
    r = env.nd(s["data"])
    env.check(tuple(r.shape) == tuple(shape), "shape as stored")
    env.check(env.same_array(r, data, dtype=False), "every value as stored")
    env.check(np.dtype(r.dtype).newbyteorder("=") == np.dtype(dt), "data type as stored")
    axes_match(env, s)
    for i, a in enumerate(s["axes"]):
        j = nd - 1 - i
        if j < k:
            o, sc, u = ds[j]
            env.check(env.same(a["scale"], sc), "scale of each axis")
            env.check(env.same(a["offset"], -1 * o * sc), "offset of each axis is minus origin times scale")
            env.check(a["units"] == u, "units of each axis")
        else:
            env.check(a["scale"] == 1.0 and a["offset"] == 0.0 and a["units"] == "", "axes without calibration")
    env.check([a["index_in_array"] for a in s["axes"]] == list(range(nd)), "axis order")
    spectrum = fmt in ("Spectrum image", "Spectrum")
    one = nd == 1 or (spectrum and nd == 2)
    env.check([a["navigate"] for a in s["axes"]] == [True] * (nd - (1 if one else 2)) + [False] * (1 if one else 2), "signal axes")
    calls = []

    class S:
        def to_signal1D(self, optimize=True):
            calls.append("1D")
            return self

        def squeeze(self):
            calls.append("squeeze")
            return self

    for f in s["post_process"]:
        f(S())
    env.check(("1D" in calls) == (fmt == "Spectrum image" and nd > 2), "spectrum images become spectra")
    env.check(s["metadata"]["Signal"]["signal_type"] == {"EELS": "EELS", "X-ray": "EDS_TEM", "CL": "CL"}.get(signal, ""), "signal type")
    env.check(s["metadata"]["General"]["title"] == "img", "title")
    want = {"EELS": ("eV", "Energy loss"), "X-ray": ("keV", "Energy"), "CL": ("nm", "Wavelength")}.get(signal)
    names = [a["name"] for a in s["axes"]]
    rest = ["x", "y", "z"]
    if want and want[0] in units:
        i = units.index(want[0])
        env.check(names[i] == want[1], "the spectral axis is named")
        names.pop(i)
    env.check(names[::-1][:3] == rest[: len(names)], "spatial axes are named x, y, z from the last")
    m = s["mapping"]
    p = "ImageList.TagGroup0.ImageData.Calibrations.Brightness."
    om = s["original_metadata"]
    b = om["ImageList"]["TagGroup0"]["ImageData"]["Calibrations"]["Brightness"]
    env.check(env.all(env.same(b["Origin"], br[0]), env.same(b["Scale"], br[1])), "intensity calibration is kept")
    env.cover("read")


def rgb(env, ver, endian, dcode, shape):
    w = W(env, ver, endian)
    c = env.bytes("d", 4 * prod(shape))
    im = image(env, w, shape[::-1], dcode, c, prod(shape), 5, dims=[(0.0, 1.0, "nm")] * 2)
    s = read(env, w, [("ImageList", "group", [im])])[0]
    r = s["data"]
    env.check(tuple(r.shape) == tuple(shape), "shape as stored")
    env.check(tuple(r.dtype.names) == ("R", "G", "B", "A"), "colours in order R, G, B, A")
    for j, n in enumerate("BGRA"):
        x = env.nd(r[n]).reshape(-1)
        env.check(env.all(*[env.same(x[i], c[4 * i + j]) for i in range(prod(shape))]), "every colour as stored")
    env.cover("read")


def several(env, ver, endian, thumb, n):
    """images but the thumbnails, in order, each with its own tags"""
    w = W(env, ver, endian)
    ims, datas, tg = [], [], []
    for i in range(n):
        sh = (i + 1, 2)
        d = env.array("d%d" % i, sh, np.dtype("uint16").newbyteorder(w.e))
        t = env.int("t%d" % i, 0, 1000)
        sc = env.float("s%d" % i, "f")
        datas.append(d)
        tg.append((t, sc))
        ims.append(image(env, w, sh[::-1], 10, env.cells(d), prod(sh), 4, tags=[("K", "simple", 3, t)], dims=[(0.0, sc, "nm")] * 2, name="im%d" % i))
    items = [("ImageList", "group", ims)]
    if thumb is not None:
        items.append(("Thumbnails", "group", [("", "group", [("ImageIndex", "simple", 3, thumb)])]))
    out = read(env, w, items)
    keep = [i for i in range(n) if i != thumb]
    env.check(len(out) == len(keep), "all images but the thumbnail")
    for s, i in zip(out, keep):
        env.check(env.same_array(s["data"], datas[i], dtype=False), "the data of each image")
        env.check(s["metadata"]["General"]["title"] == "im%d" % i, "the title of each image")
        env.check(env.same(s["original_metadata"]["ImageList"]["TagGroup0"]["ImageTags"]["K"], tg[i][0]), "the tags of each image")
        env.check(env.same(s["axes"][1]["scale"], tg[i][1]), "the calibration of each image")
    env.cover("read")


def packed(env, ver, N, lazy):
    """half-plane Fourier transforms are completed by symmetry"""
    w = W(env, ver, "little")
    sh = (2 * N, 2 * N)
    vals = env.array("d", (4 * N * N,), "float32")
    env.assume(env.all(*[x - x == 0 for x in vals]))
    im = image(env, w, sh[::-1], 5, env.cells(vals), 4 * N * N, 6, dims=[(0.0, 1.0, "")] * 2)
    s = read(env, w, [("ImageList", "group", [im])], lazy=lazy)[0]
    r = env.nd(s["data"])
    env.check(tuple(r.shape) == sh, "shape")
    M = 2 * N
    ok = []

    def eqv(x, y):
        s = env.same(x, y)
        return s if s is True else x == y

    for i in range(M):
        for j in range(M):
            a, b = r[i, j], r[-i % M, -j % M]
            ok.append(eqv(a.real, b.real))
            if (i, j) in ((0, 0), (0, N), (N, 0), (N, N)):
                ok.append(a.imag == 0)
            else:
                ok.append(eqv(a.imag, -b.imag))
    env.check(env.all(*ok), "the transform is Hermitian about the centre")
    rows = [eqv(r[N, 0].real, vals[0]), eqv(r[0, 0].real, vals[1]), eqv(r[N, N].real, vals[2 * N * N]), eqv(r[0, N].real, vals[2 * N * N + 1])]
    for i in range(N):
        for j in range(1, N):
            k = 2 * i * N + 2 * j
            rows += [eqv(r[i, N + j].real, vals[k]), eqv(r[i, N + j].imag, vals[k + 1])]
    for i in range(1, N):
        k = 2 * N * i
        rows += [eqv(r[N + i, 0].real, vals[k]), eqv(r[N + i, 0].imag, vals[k + 1])]
    env.check(env.all(*rows), "stored values at their places")
    env.cover("read")


def packed_new(env, ver, dcode, shape):
    """lazy and eager reading of packed complex images agree"""
    w = W(env, ver, "little")
    cdt, et = {27: ("complex64", 6), 28: ("complex128", 7)}[dcode]
    half = (shape[0], shape[1] // 2 + 1)
    d = env.array("d", half, cdt)
    im = image(env, w, shape[::-1], dcode, env.cells(d), 2 * prod(half), et, dims=[(0.0, 1.0, "")] * 2)
    a = read(env, w, [("ImageList", "group", [im])])[0]["data"]
    b = env.nd(read(env, W(env, ver, "little"), [("ImageList", "group", [im])], lazy=True)[0]["data"])
    env.check(tuple(a.shape) == tuple(shape) and tuple(b.shape) == tuple(shape), "shape")
    env.check(env.same_array(a, b), "lazy and eager reading agree")
    env.check(env.same_array(env.nd(a)[:, : half[1]], env.nd(d)[:, ::-1]), "the stored half")
    env.cover("read")


def norm(k):
    return re.sub(r"_+", "_", re.sub(r"[^0-9a-zA-Z\-]", "_", k)).strip("_")


def lookup(d, path):
    """as HyperSpy finds an item by its path"""
    for k in path.split("."):
        if not isinstance(d, dict):
            return None
        m = {norm(x): v for x, v in d.items()}
        if norm(k) not in m:
            return None
        d = m[norm(k)]
    return d


def normtree(d):
    return {norm(k): normtree(v) for k, v in d.items()} if isinstance(d, dict) else d


def mapped(env, signal, mode, imaging, digiscan, source=False):
    """the values of the instrument end up in metadata with the right units"""
    from box import Box

    w = W(env, 3, "little")
    F = lambda n: env.float(n, "f")
    volt, x, y, z, al, be, mag, cl, cur, st = [F(n) for n in ("volt", "x", "y", "z", "al", "be", "mag", "cl", "cur", "st")]
    ca, co, ex, fr = F("ca"), F("co"), F("ex"), env.choose("fr", [1, 2, 1000])
    mi = [("Voltage", "simple", 6, volt), ("Stage Position", "group", [("Stage X", "simple", 6, x), ("Stage Y", "simple", 6, y), ("Stage Z", "simple", 6, z), ("Stage Alpha", "simple", 6, al), ("Stage Beta", "simple", 6, be)]),
          ("Illumination Mode", "text", mode), ("Imaging Mode", "text", imaging), ("Indicated Magnification", "simple", 6, mag), ("STEM Camera Length", "simple", 6, cl), ("Probe Current (nA)", "simple", 6, cur), ("Name", "text", "scope")]
    tags = [("Microscope Info", "group", mi), ("DataBar", "group", [("Acquisition Date", "text", "2/13/2019"), ("Acquisition Time", "text", "5:06:07 PM")]),
            ("Session Info", "group", [("Operator", "text", "me"), ("Specimen", "text", "spec")])]
    if digiscan:
        tags.append(("DigiScan", "group", [("Sample Time", "simple", 7, st)]))
    else:
        tags.append(("Acquisition", "group", [("Parameters", "group", [("Detector", "group", [("exposure (s)", "simple", 6, ex)])])]))
    if signal:
        tags.append(("Meta Data", "group", [("Signal", "text", signal), ("Format", "text", "Spectrum")]))
    if signal == "EELS":
        tags.append(("EELS", "group", [("Experimental Conditions", "group", [("Collection semi-angle (mrad)", "simple", 6, co), ("Convergence semi-angle (mrad)", "simple", 6, ca)]),
                                       ("Acquisition", "group", [("Exposure (s)", "simple", 6, ex), ("Number of frames", "simple", 3, fr)])]))
    cells = env.cells(env.array("d", (3,), "<i2"))
    im = image(env, w, (3,), 1, cells, 3, 2, dims=[(0.0, 1.0, "eV")], bright=(F("bo"), F("bs"), "e-"), tags=tags)
    s = read(env, w, [("ImageList", "group", [im])])[0]
    out = {}
    for src, (dst, f) in s["mapping"].items():
        v = lookup(s["original_metadata"], src)
        if v is None:
            continue
        if isinstance(v, dict):
            v = Box(normtree(v), box_dots=True) if "microscope" not in dst else Box(v, box_dots=True)
        r = f(v) if f else v
        if r is not None:
            out[dst] = r
    sem = "SEM" in mode and "STEM" not in mode
    p = "Acquisition_instrument." + ("SEM" if sem else "TEM") + "."

    def chk(key, val, msg):
        env.check(key in out and (out[key] == val if isinstance(val, str) else env.same(out[key], val)), msg)

    chk(p + "beam_energy", volt / 1e3, "beam energy in keV")
    for k, v in (("x", x), ("y", y), ("z", z)):
        chk(p + "Stage." + k, v * 1e-3, "stage position in mm")
    chk(p + "Stage.tilt_alpha", al, "tilt alpha")
    chk(p + "Stage.tilt_beta", be, "tilt beta")
    chk(p + "beam_current", cur, "beam current")
    chk(p + "acquisition_mode", "STEM" if "STEM" in mode else "SEM" if sem else "TEM", "acquisition mode")
    chk(p + "microscope", "scope", "microscope name")
    if mode == "TEM":
        env.check((p + "camera_length" in out) == (imaging == "DIFFRACTION"), "camera length in diffraction only")
        chk(p + ("camera_length" if imaging == "DIFFRACTION" else "magnification"), mag, "magnification or camera length")
    else:
        chk(p + "camera_length", cl, "camera length")
        chk(p + "magnification", mag, "magnification")
    chk("General.date", "2019-02-13", "date")
    chk("General.time", "17:06:07", "time")
    chk("General.authors", "me", "operator")
    chk("Sample.description", "spec", "specimen")
    chk("Signal.Noise_properties.Variance_linear_model.gain_factor", s["original_metadata"]["ImageList"]["TagGroup0"]["ImageData"]["Calibrations"]["Brightness"]["Scale"], "gain")
    chk("Signal.quantity", "X-rays (Counts)" if signal == "X-ray" else "Electrons (Counts)", "quantity")
    if signal == "EELS":
        chk("Acquisition_instrument.TEM.Detector.EELS.collection_angle", co, "collection angle")
        chk("Acquisition_instrument.TEM.convergence_angle", ca, "convergence angle")
        chk("Acquisition_instrument.TEM.Detector.EELS." + ("dwell_time" if digiscan else "exposure"), ex * (fr * 1.0), "exposure times frames")
    elif digiscan and not signal:
        chk(p + "dwell_time", st / 1e6, "dwell time in s")
    elif not signal:
        chk("Acquisition_instrument.TEM.Camera.exposure", ex, "camera exposure")
    env.cover("mapped")


def apply_mapping(s):
    from box import Box

    out = {}
    for src, (dst, f) in s["mapping"].items():
        v = lookup(s["original_metadata"], src)
        if v is None:
            continue
        if isinstance(v, dict):
            v = Box(normtree(v), box_dots=True) if "microscope" not in dst else Box(v, box_dots=True)
        r = f(v) if f else v
        if r is not None:
            out[dst] = r
    return out


CL_TEXT = {"Meta Data.Acquisition Mode": "Spectrometer.acquisition_mode", "Meta Data.Format": "Signal.format", "Acquisition.Parameters.High Level.Binning": "Detector.binning", "Acquisition.Parameters.High Level.Processing": "Detector.processing",
           "SI.Acquisition.SI Application Mode.Name": "Spectrum_image.mode", "SI.Acquisition.Artefact Correction.Spatial Drift.Units": "Spectrum_image.drift_correction_units"}
CL_NUM = {"Acquisition.Monarc Spectrometer.Slit Width": "Spectrometer.entrance_slit_width", "Acquisition.Monarc Spectrometer.Bandpass": "Spectrometer.bandpass", "CL.Acquisition.Central wavelength (nm)": "Spectrometer.central_wavelength",
          "CL.Acquisition.Exposure (s)": "Detector.exposure_per_frame", "CL.Acquisition.Saturation fraction": "Detector.saturation_fraction", "CL.Acquisition.Start wavelength (nm)": "Spectrometer.start_wavelength",
          "CL.Acquisition.Step-size (nm)": "Spectrometer.step_size", "Acquisition.Monarc Spectrometer.PMT HV": "Detector.pmt_voltage", "SI.Acquisition.Artefact Correction.Spatial Drift.Periodicity": "Spectrum_image.drift_correction_periodicity"}
EELS_NUM = {"EELS.Experimental Conditions.Collection semi-angle (mrad)": "TEM.Detector.EELS.collection_angle", "EELS.Experimental Conditions.Convergence semi-angle (mrad)": "TEM.convergence_angle"}
EDS_NUM = {"EDS.Detector Info.Azimuthal angle": "TEM.Detector.EDS.azimuth_angle", "EDS.Detector Info.Elevation angle": "TEM.Detector.EDS.elevation_angle", "EDS.Solid angle": "TEM.Detector.EDS.solid_angle", "EDS.Live time": "TEM.Detector.EDS.live_time", "EDS.Real time": "TEM.Detector.EDS.real_time"}


def nest(flat):
    """a tag tree from dotted paths"""
    d = {}
    for k, v in flat.items():
        g = d
        *a, last = k.split(".")
        for x in a:
            g = g.setdefault(x, {})
        g[last] = v
    return [(k, "group", nest_items(v)) if isinstance(v, dict) else (k,) + v for k, v in d.items()]


def nest_items(d):
    return [(k, "group", nest_items(v)) if isinstance(v, dict) else (k,) + v for k, v in d.items()]


def mapped_kind(env, kind, source=False, integration=None, frames=None, begin=False, names=0, units="e-", cl_mode="Parallel dispersive", empty=False, dwell=False, digiscan=False):
    """the settings of each kind of detector end up in metadata"""
    w = W(env, 3, "little")
    flat, want = {}, {}
    A = "Acquisition_instrument."

    def num(tag, dst, fn=None):
        v = env.float("n%d" % len(flat), "f")
        flat[tag] = ("simple", 6, v)
        if dst:
            want[dst] = fn(v) if fn else v
        return v

    def text(tag, val, dst=None, out=None):
        flat[tag] = ("text", val)
        if dst:
            want[dst] = val if out is None else out

    text("DataBar.Acquisition Date", "2/13/2019", "General.date", "2019-02-13")
    text("DataBar.Acquisition Time", "5:06:07 PM", "General.time", "17:06:07")
    sig = {"EELS": "EELS", "EDS": "X-ray", "CL": "CL"}.get(kind)
    if sig:
        text("Meta Data.Signal", sig)
    if digiscan:
        num("DigiScan.Sample Time", A + "TEM.dwell_time" if kind == "CL" or not sig else None, lambda x: x / 1e6)
    if kind == "SI":
        text("SI.Acquisition.Date", "03/04/2020", "General.date", "2020-03-04")
        text("SI.Acquisition.Start time", "1:02:03 AM", "General.time", "01:02:03")
    if kind in ("EELS", "EDS"):
        text(kind + ".Acquisition.Date", "05/06/2021", "General.date", "2021-05-06")
        text(kind + ".Acquisition.Start time", "11:12:13 PM", "General.time", "23:12:13")
    if kind == "EELS":
        for k, v in EELS_NUM.items():
            num(k, A + v)
        text("EELS Spectrometer.Aperture label", "5 mm" if not empty else "large", None)
        if not empty:
            want[A + "TEM.Detector.EELS.aperture_size"] = 5.0
        text("EELS Spectrometer.Instrument name", "GIF", A + "TEM.Detector.EELS.spectrometer")
    if kind == "EDS":
        for k, v in EDS_NUM.items():
            num(k, A + v)
    if kind in ("EELS", "CL"):
        dst = A + ("TEM.Detector.EELS." + ("dwell_time" if digiscan else "exposure") if kind == "EELS" else "Detector.integration_time")
        pre = kind + ".Acquisition."
        ex = num(pre + "Exposure (s)", A + "Detector.exposure_per_frame" if kind == "CL" else None)
        if frames:
            flat[pre + "Number of frames"] = ("simple", 3, frames)
            want[A + ("TEM.Detector.EELS.frame_number" if kind == "EELS" else "Detector.frames")] = frames
        if integration:
            num(pre + "Integration time (s)", dst)
        else:
            want[dst] = ex * float(frames or 1)
    if kind == "CL":
        if not digiscan:
            text("CL.Acquisition.Date", "7/8/2022")
            text("CL.Acquisition.Start time", "0:01:02", None)
        for k, v in CL_NUM.items():
            if k != "CL.Acquisition.Exposure (s)":
                num(k, A + v)
        for k, v in CL_TEXT.items():
            val = cl_mode if k.endswith("Acquisition Mode") else "v of " + k.split(".")[-1]
            text(k, val, v if v.startswith("Signal") else A + v)
        if cl_mode.endswith(" dispersive"):
            want[A + "Detector.detector_type"] = {"Parallel": "CCD", "Serial": "PMT"}[cl_mode.split(" ")[0]]
        if begin:
            num("CL.Acquisition.Dispersion grating (lines/mm)", A + "Spectrometer.Grating.groove_density")
            text("CL.Acquisition.Acquisition begin", "9/10/2023")
        else:
            text("Acquisition.Monarc Spectrometer.Grating", "600", A + "Spectrometer.Grating.groove_density", 600.0)
        if dwell:
            num("CL.Acquisition.Dwell time (s)", A + "Detector.integration_time")
        px = env.float("px", "f"), env.choose("square", [True, False])
        flat["Acquisition.Device.CCD.Pixel Size (um)"] = ("struct", [(6, px[0]), (6, px[0] if px[1] else np.float32(7.5))])
        env.assume(px[0] != np.float32(7.5))
        env.assume(px[0] == px[0])
        want[A + "Detector.pixel_size"] = px[0] if px[1] else (px[0], np.float32(7.5))
        # the date of the image itself is given last
    if names:
        text("Microscope Info.Voltage note", "x")
        locs = ("Session Info.Microscope", "Microscope Info.Name", "Microscope Info.Microscope")
        for i, l in enumerate(locs):
            if names >> i & 1:
                text(l, "mic%d" % i)
        first = [i for i in range(3) if names >> i & 1][0]
        want[A + "TEM.microscope"] = "mic%d" % first
    text("Session Info.Operator", "" if empty else "me", None if empty else "General.authors")
    text("Session Info.Specimen", "" if empty else "foil", None if empty else "Sample.description")
    if not sig and not digiscan:
        num("Acquisition.Parameters.Detector.exposure (s)", A + "TEM.Camera.exposure")
    tags = nest(flat)
    if source:
        tags = [("source", "group", [("Tags at creation", "group", tags)])]
    cells = env.cells(env.array("d", (3,), "<i2"))
    bo, bs = env.float("bo", "f"), env.float("bs", "f")
    im = image(env, w, (3,), 1, cells, 3, 2, dims=[(0.0, 1.0, "eV")], bright=(bo, bs, units), tags=tags)
    s = read(env, w, [("ImageList", "group", [im])])[0]
    out = apply_mapping(s)
    q = {"e-": "Electrons (Counts)", "": "Intensity", "W": "Intensity (W)"}[units]
    if kind == "EDS" and not source:
        q = q.replace("Electrons", "X-rays").replace("Intensity", "X-rays")
    want["Signal.quantity"] = q
    want["Signal.Noise_properties.Variance_linear_model.gain_factor"] = bs
    want["Signal.Noise_properties.Variance_linear_model.gain_offset"] = bo
    for k, v in want.items():
        got = out.get(k)
        if isinstance(v, str):
            env.check(got == v, "text of " + k)
        elif isinstance(v, tuple):
            env.check(isinstance(got, tuple) and env.all(*[env.same(a, b) for a, b in zip(got, v)]), "values of " + k)
        else:
            env.check(got is not None and not isinstance(got, (str, tuple)) and env.all(env.same(got, v)), "value of " + k)
    extra = [k for k in out if k not in want]
    env.check(not extra, "nothing else: " + ", ".join(extra))
    env.cover("mapped")


def harnesses(tier):
    hs = []
    fr = ["digitalmicrograph.file_reader", "DigitalMicrographReader.*"]
    fi = fr + ["ImageObject.*"]
    for ver in (3, 4):
        for en in ("little", "big"):
            for what in ("simple", "arrays", "structs", "nested", "names"):
                hs.append(H(f"tags {ver} {en} {what}", tags, dict(ver=ver, endian=en, what=what), 120, fr, "symbolic values", ["read"]))
            for dc in DT:
                for lazy in (False, True):
                    hs.append(H(f"image {ver} {en} {dc} {lazy}", img, dict(ver=ver, endian=en, dcode=dc, shape=(2, 3), lazy=lazy), 120, fi, "symbolic pixels and calibration", ["read"]))
            for dc in (8, 23):
                hs.append(H(f"rgb {ver} {en} {dc}", rgb, dict(ver=ver, endian=en, dcode=dc, shape=(2, 3)), 120, fi, "symbolic pixels", ["read"]))
            for th, n in ((None, 1), (None, 2), (0, 2), (1, 3), (2, 3), (0, 1)):
                hs.append(H(f"several {ver} {en} {th} {n}", several, dict(ver=ver, endian=en, thumb=th, n=n), 120, fi, "symbolic pixels, tags and scales", ["read"]))
    sh = [((4,), None), ((2, 2, 3), None), ((2, 1, 2, 2), None), ((3, 2, 2), None)]
    for shape, _ in sh:
        for lazy in (False, True):
            for order in (None, "C", "F"):
                for ch in ("auto", 1) if lazy else ("auto",):
                    hs.append(H(f"shape {shape} {lazy} {order} {ch}", img, dict(ver=3, endian="little", dcode=10, shape=shape, lazy=lazy, order=order, chunks=ch), 120, fi, "symbolic pixels and calibration", ["read"]))
            for nd in range(len(shape)):
                hs.append(H(f"uncalibrated {shape} {lazy} {nd}", img, dict(ver=4, endian="little", dcode=2, shape=shape, lazy=lazy, ndims=nd), 120, fi, "symbolic pixels and calibration", ["read"]))
    for fmt in (None, "Spectrum image", "Spectrum", "Image"):
        for sg, u in (("EELS", "eV"), ("X-ray", "keV"), ("CL", "nm"), (None, "eV")):
            for shape in ((3,), (2, 3), (3, 2, 2)):
                for pos in range(len(shape)):
                    us = ["u%d" % i for i in range(len(shape))]
                    us[pos] = u
                    hs.append(H(f"spectrum {fmt} {sg} {shape} {pos}", img, dict(ver=3, endian="little", dcode=10, shape=shape, lazy=False, fmt=fmt, signal=sg, units=us), 120, fi, "symbolic pixels and calibration", ["read"]))
    for N in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for lazy in (False, True):
            hs.append(H(f"packed {N} {lazy}", packed, dict(ver=3, N=N, lazy=lazy), 120, fi, "symbolic values", ["read"]))
    for dc in (27, 28):
        hs.append(H(f"packed new {dc}", packed_new, dict(ver=3, dcode=dc, shape=(2, 4)), 120, fi, "symbolic values", ["read"]))
    K = [dict(kind="EELS"), dict(kind="EELS", frames=7, digiscan=True), dict(kind="EELS", integration=True, frames=3), dict(kind="EELS", empty=True, units=""), dict(kind="EDS"), dict(kind="EDS", units=""), dict(kind="SI"),
         dict(kind="CL"), dict(kind="CL", frames=4, begin=True), dict(kind="CL", cl_mode="Serial dispersive", dwell=True, digiscan=True), dict(kind="CL", cl_mode="Image", integration=True, units="W"), dict(kind="", source=True), dict(kind="", source=True, digiscan=True), dict(kind="", units="W", empty=True)]
    K += [dict(kind="", names=n, source=n == 5) for n in range(1, 8)]
    for k in K:
        hs.append(H("metadata %s" % " ".join("%s=%s" % i for i in k.items()), mapped_kind, k, 120, ["ImageObject.get_mapping"], "symbolic values; the settings named", ["mapped"]))
    for sg in (None, "EELS", "X-ray"):
        for mode, im in (("TEM", "DIFFRACTION"), ("TEM", "MAG"), ("STEM NANOPROBE", "DIFFRACTION"), ("SEM", "")):
            for ds in (True, False):
                hs.append(H(f"mapping {sg} {mode} {im} {ds}", mapped, dict(signal=sg, mode=mode, imaging=im, digiscan=ds), 120, ["ImageObject.get_mapping"], "symbolic values", ["mapped"]))
    return hs
