"""EMPAD detector files."""
import math

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "the XML description is concrete; frames are 128x128 with two footer lines, of which the first and last pixels of each line named are symbolic",
    "np.fromfile and np.memmap are modelled as views of the file's bytes",
]
F = ["rsciio.empad._api." + n for n in ("file_reader", "_read_raw", "_parse_xml", "_convert_scale_units")] + ["rsciio.utils._distributed.memmap_distributed"]
SI = {"m": 1.0, "mm": 1e-3, "µm": 1e-6, "nm": 1e-9, "pm": 1e-12}
SPOTS = [(0, 0), (0, 127), (1, 5), (64, 64), (127, 0), (127, 127)]


def close(a, b):
    return abs(a - b) <= 1e-9 * abs(b)


def xml(kind, n, iso, fov, pix, raw):
    s = "<?xml version='1.0' encoding='UTF-8'?>\n<root>"
    if raw:
        s += '<raw_file filename="%s"/>' % raw
    if kind == "series":
        s += "<scan_parameters mode='acquire'><series_count>%d</series_count></scan_parameters>" % n[0]
    elif kind == "pix":
        s += "<pix_x>%d</pix_x><pix_y>%d</pix_y>" % (n[1], n[0])
    if iso:
        s += '<timestamp isoformat="%s"/>' % iso
    s += "<iom_measurements>"
    if fov and fov[0] == "optics":
        s += "<optics><get_full_scan_field_of_view>(%r, %r)</get_full_scan_field_of_view></optics>" % fov[1:]
    elif fov:
        s += "<full_scan_field_of_view><x>%r</x><y>%r</y><scale_factor>%r</scale_factor></full_scan_field_of_view>" % (fov[1], fov[1], fov[2])
    if pix:
        s += "<calibrated_pixelsize>%r</calibrated_pixelsize>" % pix
    s += "<note>hello</note></iom_measurements></root>"
    return s


def h_read(env, kind, n, lazy=False, iso=None, fov=None, pix=None, q=None, nans=False, tag=""):
    from rsciio.empad import file_reader

    count = prod(n)
    raw = ("scan_%sx%d_y%d.raw" % (tag, n[1], n[0])) if kind == "name" else "f.raw"
    cells, vals = [], []
    for k in range(count):
        blk = []
        base = np.arange(130 * 128, dtype="<f4").reshape(130, 128) + 20000 * k
        blk = list(base.tobytes())
        v = {}
        for y, x in SPOTS[1:4:2] if nans else SPOTS:
            b = env.bytes("v%d_%d_%d" % (k, y, x), 4)
            o = (y * 128 + x) * 4
            blk[o:o + 4] = b
            v[y, x] = env.elems(b, np.dtype("<f4"))[0]
        b = env.bytes("foot%d" % k, 8)
        blk[128 * 128 * 4:128 * 128 * 4 + 4] = b[:4]
        blk[130 * 128 * 4 - 4:] = b[4:]
        cells += blk
        vals.append((base[:128], v))
    env.file(raw, cells)
    src = env.file("a.xml", list(xml(kind, n, iso, fov, pix, raw).encode()))
    out = file_reader(src, lazy=lazy, q_calibration=q, remove_nans=nans)
    env.check(len(out) == 1, "one signal")
    s = out[0]
    d = env.nd(s["data"])
    sh = tuple(i for i in n if i > 1) + (128, 128)
    env.check(tuple(int(i) for i in d.shape) == sh, "shape")
    d = d.reshape((count, 128, 128))
    ok = []
    for k, (base, v) in enumerate(vals):
        for (y, x), e in v.items():
            got = d[k, y, x]
            if nans:
                ok.append(env.same(got, env.ite(e == e, e, np.float32(0)) if env.is_sym(e) else (e if e == e else np.float32(0))))
            else:
                ok.append(env.same(got, e))
        for y in (0, 3, 63, 126, 127):
            for x in (1, 2, 40, 126):
                if (y, x) not in v:
                    ok.append(d[k, y, x] == float(base[y, x]))
    env.check(env.all(*ok), "every pixel of every frame, without the footer")
    env.check(np.dtype(s["data"].dtype).newbyteorder("=") == np.dtype("f4"), "data type")
    axes_match(env, s)
    nav = len(sh) - 2
    env.check([a["navigate"] for a in s["axes"]] == [True] * nav + [False, False], "kind of the axes")
    env.check([a["index_in_array"] for a in s["axes"]] == list(range(nav + 2)), "order of the axes")
    names = ["series_count"] if kind == "series" else ["scan_y", "scan_x"]
    names = [m for m, i in zip(names, n) if i > 1] + ["height", "width"]
    env.check([a["name"] for a in s["axes"]] == names, "names of the axes")
    for a in s["axes"]:
        if a["name"] == "series_count":
            env.check((a["scale"], a["offset"], a["units"]) == (1, 0, "ms"), "series")
        elif a["name"].startswith("scan"):
            i = ["scan_y", "scan_x"].index(a["name"])
            env.check(a["offset"] == 0, "scan starts at 0")
            if fov is None:
                env.check(a["scale"] == 1 and not a["units"], "uncalibrated scan")
            else:
                want = fov[1 + i] / n[i] if fov[0] == "optics" else fov[1] / fov[2] / max(n)
                env.check(close(a["scale"] * SI[a["units"]], want), "step of the scan")
        else:
            sc = q if q is not None else pix * 1e9 if pix else 1
            env.check(close(a["scale"], sc) and close(a["offset"], -64 * sc), "diffraction calibration, centred")
            env.check(a["units"] == ("1/nm" if q is not None or pix else None), "diffraction units")
    g = s["metadata"]["General"]
    env.check((g["original_filename"], g["title"]) == ("a.xml", "a"), "title")
    env.check((g.get("date"), g.get("time")) == (tuple(iso.split("T")) if iso else (None, None)), "date and time")
    env.check(s["metadata"]["Signal"]["signal_type"] == "electron_diffraction", "signal type")
    env.check(s["original_metadata"]["root"]["iom_measurements"]["note"] == "hello", "description kept")
    env.cover("read")


def harnesses(tier):
    hs = []
    B = "the pixels named of every frame; the shapes, calibrations and options named"

    def add(nm, **k):
        for lz in (False, True):
            hs.append(H(nm + " lazy" * lz, h_read, dict(k, lazy=lz), 120, F, B, ["read"]))

    iso = "2019-06-07T13:17:22.590279"
    add("series", kind="series", n=(3,), iso=iso)
    add("series of one", kind="series", n=(1,), iso=iso, pix=1.5e-3)
    add("series calibrated", kind="series", n=(2,), q=0.25)
    for kind in ("pix", "name"):
        add(kind, kind=kind, n=(2, 3))
        add(kind + " square", kind=kind, n=(2, 2), iso=iso, fov=("optics", 2e-6, 2e-6), pix=3.5e-2)
        add(kind + " one field", kind=kind, n=(2, 3), fov=("full", 7.2e-8, 0.72), q=0.3)
        add(kind + " one field tall", kind=kind, n=(3, 1), fov=("full", 7.2e-5, 0.9))
        add(kind + " column", kind=kind, n=(3, 1), pix=0.02)
        add(kind + " row", kind=kind, n=(1, 3), q=0.5, pix=0.02)
        add(kind + " one", kind=kind, n=(1, 1))
        add(kind + " field of rows", kind=kind, n=(2, 3), fov=("optics", 6e-7, 6e-7))
        add(kind + " field", kind=kind, n=(2, 2), fov=("optics", 4e-9, 4e-9))
    add("name with a tag", kind="name", n=(2, 3), tag="b_7_")
    add("nans", kind="pix", n=(1, 2), nans=True)
    add("nans series", kind="series", n=(1,), nans=True, q=1.0)
    return hs
