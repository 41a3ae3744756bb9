"""Standard image formats: pixels, colours, calibration and figures."""
import contextlib

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "imageio and pillow are trusted for the pixels of files: a stand-in keeps the array given to imwrite and hands it out; the plain libraries (PNG) on replay",
    "exif tags are handed out by a stand-in for pillow, matplotlib figures and scale bars recorded by stand-ins; numbers of the tags chosen from lists",
]
F = ["rsciio.image._api." + n for n in ("file_reader", "file_writer", "_read_data")] + ["rsciio.utils._image._parse_axes_from_metadata", "rsciio.utils._image._parse_exif_tags"] + ["rsciio.utils.rgb." + n for n in ("rgbx2regular_array", "regular_array2rgbx", "is_rgbx", "is_rgb", "is_rgba")]


class Im:
    def __init__(self, exif, private):
        self.exif = exif
        if private:
            self._getexif = lambda: exif

    def getexif(self):
        return self.exif or {}


class Props:
    pass


@contextlib.contextmanager
def library(env, stored, batch=False, exif=None, private=True, ext="png"):
    import imageio.v3 as iio

    from rsciio.image import _api as m

    class IIO:
        def __getattr__(self, k):
            return getattr(iio, k)

        def imwrite(self, f, data, **kw):
            stored["kw"] = kw
            if env.symbolic:
                stored["data"] = data
            else:
                iio.imwrite(f, data, **kw)

        def imread(self, f, **kw):
            stored["read"] = stored.get("read", 0) + 1
            return stored["data"] if env.symbolic else iio.imread(f, **kw)

        def improps(self, f, **kw):
            p = Props()
            d = self.imread(f)
            p.is_batch, p.shape, p.dtype = batch, tuple(d.shape), d.dtype
            p.n_images = d.shape[0] if batch else None
            return p

        def immeta(self, f, **kw):
            return {}

    class PIL:
        @staticmethod
        def open(f):
            return Im(exif, private)

    old = m.iio, m.Image
    m.iio, m.Image = IIO(), PIL
    try:
        yield m
    finally:
        m.iio, m.Image = old


def put_image(env, stored, a, ext="png"):
    """file of another program"""
    if env.symbolic:
        stored["data"] = a
        open(env.path("a." + ext), "wb").close()
    else:
        import imageio.v3 as iio

        iio.imwrite(env.path("a." + ext), a)


def same_pixels(env, o, a, colours, frames=False, lazy=False):
    """a: array with or without colours; grey images are read as such"""
    d = o["data"]
    env.check(hasattr(d, "dask") == lazy, "dask arrays exactly when lazy")
    shape, names = tuple(d.shape), d.dtype.names
    d = env.nd(d)
    env.check(tuple(d.shape) == shape and d.dtype.names == names, "shape and type known beforehand")
    if not colours:
        env.check(env.same_array(d, a), "every pixel")
        return
    n = a.shape[-1]
    env.check(shape == tuple(a.shape[:-1]), "shape")
    if names is None:
        env.cover("grey")
        env.check(env.all([env.same_array(a[..., 0], a[..., 1]), env.same_array(a[..., 1], a[..., 2])]), "colours are kept")
        env.check(env.same_array(d, a[..., 0], False), "every grey pixel")
    else:
        env.cover("colours")
        env.check(names == ("R", "G", "B", "A")[:n], "names of the colours")
        for i, c in enumerate(names):
            env.check(env.same_array(d[c], a[..., i], False), "every pixel of the colour")


def default_axes(env, o, shape):
    ax = o["axes"]
    env.check([a["size"] for a in ax] == list(shape), "size of the axes")
    env.check([a["name"] for a in ax[-2:]] == ["y", "x"], "names of the axes")
    env.check([a["index_in_array"] for a in ax] == list(range(len(shape))), "index of the axes")
    for a in ax:
        env.check(a["scale"] == 1.0 and a["offset"] == 0 and a["units"] is None, "no calibration")


def h_roundtrip(env, shape, dtype="uint8", rgb=0, lazy=False, kw=None, dask=False):
    st = {}
    if rgb:
        from rsciio.utils.rgb import regular_array2rgbx

        plain = env.array("d", shape + (rgb,), dtype)
        data = regular_array2rgbx(plain)
        env.check(tuple(data.shape) == shape and data.dtype.names == ("R", "G", "B", "A")[:rgb], "structured array")
    else:
        plain = data = env.array("d", shape, dtype)
    s = dict(data=data, axes=[axis("ab"[i], n, False, i) for i, n in enumerate(shape)], metadata={}, original_metadata={})
    with library(env, st) as m:
        m.file_writer(env.path("a.png"), s, **(kw or {}))
        env.check(st["kw"] == (kw or {}), "arguments for the library")
        if env.symbolic:
            env.check(env.same_array(st["data"], plain), "pixels given to the library")
            open(env.path("a.png"), "wb").close()
        o = m.file_reader(env.path("a.png"), lazy=lazy)
        env.check(len(o) == 1, "one signal")
        same_pixels(env, o[0], plain, rgb, lazy=lazy)
    default_axes(env, o[0], shape)
    env.check(o[0]["metadata"]["General"]["original_filename"] == "a.png" and o[0]["metadata"]["Signal"]["signal_type"] == "", "metadata")
    env.cover("read")


def h_frames(env, shape, rgb=0, lazy=False):
    """animated images"""
    st = {}
    a = env.array("d", shape + ((rgb,) if rgb else ()), "uint8")
    with library(env, st, batch=True) as m:
        put_image(env, st, a)
        if env.symbolic or shape[0] > 1:
            o = m.file_reader(env.path("a.png"), lazy=lazy)[0]
            if shape[0] == 1:
                a, shape = a[0], shape[1:]
            same_pixels(env, o, a, rgb, lazy=lazy)
            default_axes(env, o, shape)
    env.cover("read")


UNITS = {None: None, 1: None, 2: "inches", 3: "cm", 4: "mm", 5: "µm"}


def h_exif(env, shape, rgb=0, lazy=False, private=True, part=()):
    st = {}
    a = env.array("d", shape + ((rgb,) if rgb else ()), "uint8")
    tags, want = {}, dict(x=(1.0, 0), y=(1.0, 0), u=None)
    fx, fy = env.choose("fx", [100.0, 0.5]), env.choose("fy", [100.0, 21.0])
    if "x" in part:
        tags[41486] = fx
        want["x"] = fx / shape[1], 0
    if "y" in part:
        tags[41487] = fy
        want["y"] = fy / shape[0], 0
    if "u" in part:
        u = env.choose("u", [1, 2, 3, 4, 5])
        tags[41488] = u
        want["u"] = UNITS[u]
    if "o" in part:
        ox, oy = env.float("ox"), env.float("oy")
        tags[0xFEA0] = (ox, oy)
        want["x"] = want["x"][0], ox
        want["y"] = want["y"][0], oy
    tags[271] = "maker"
    with library(env, st, exif=tags, private=private) as m:
        put_image(env, st, a)
        o = m.file_reader(env.path("a.png"), lazy=lazy)[0]
        same_pixels(env, o, a, rgb, lazy=lazy)
    env.check([x["size"] for x in o["axes"]] == list(shape) and [x["name"] for x in o["axes"]] == ["y", "x"], "axes")
    env.check([x["index_in_array"] for x in o["axes"]] == [0, 1], "index of the axes")
    for x in o["axes"]:
        sc, of = want[x["name"]]
        env.check(abs(x["scale"] - sc) < 1e-12 and x["units"] == want["u"], "scale and units")
        env.check(env.same(x["offset"], of), "offset")
    e = o["original_metadata"]["exif_tags"]
    env.check(e["Make"] == "maker" and len(e) == len(tags), "tags")
    env.cover("read")


def h_rgb(env, shape, n, dtype, dask=False, fortran=False, friendly=False):
    """structured arrays and arrays with a dimension for the colours"""
    from rsciio.utils import rgb

    a = env.array("d", shape + (n,), dtype)
    x = a
    if fortran:
        x = np.moveaxis(np.moveaxis(a, -1, 0), 0, -1)
    if dask:
        import dask.array as da

        x = da.from_array(x, chunks=shape + (2,))
    s = rgb.regular_array2rgbx(x)
    env.check(hasattr(s, "dask") == dask, "kind of array")
    env.check(rgb.is_rgbx(s) and rgb.is_rgb(s) == (n == 3) and rgb.is_rgba(s) == (n == 4), "kind of colours")
    env.check(not rgb.is_rgbx(a), "plain arrays are no colours")
    env.check(tuple(s.shape) == shape, "shape")
    c = env.nd(s)
    for i, k in enumerate("RGBA"[:n]):
        env.check(env.same_array(c[k], a[..., i], False), "every pixel of the colour")
    back = rgb.rgbx2regular_array(s)
    env.check(env.same_array(back, a), "and back")
    env.cover("read")


def h_refuse(env, what):
    from rsciio.utils import rgb

    a = env.array("d", (2, 2, 2 if what == "size" else 3), "float32" if what == "dtype" else "uint8")
    r, e = env.attempt(lambda: rgb.regular_array2rgbx(a))
    env.check(e is not None and isinstance(e, ValueError), "refused")
    p = env.array("p", (2, 2), "uint16")
    env.check(env.same_array(rgb.rgbx2regular_array(p), p), "other arrays stay")
    env.cover("read")


# ---------------------------------------------------------------------------
class Figure:
    log = None

    def __init__(self, figsize=None, dpi=None):
        Figure.log.update(figsize=tuple(figsize), dpi=dpi, artists=[])
        self.canvas = self

    def get_supported_filetypes(self):
        return {"png": "", "jpg": "", "tif": "", "pdf": ""}

    def add_axes(self, rect):
        Figure.log["rect"] = list(rect)
        return self

    def axis(self, x):
        Figure.log["axis"] = x

    def imshow(self, data, **kw):
        Figure.log["data"], Figure.log["imshow"] = data, kw

    def add_artist(self, a):
        Figure.log["artists"].append(a)

    def savefig(self, f, dpi=None, pil_kwargs=None):
        Figure.log["saved"] = f, dpi, pil_kwargs


def h_figure(env, shape, nav=False, rgb=0, size=None, scalebar=False, bad=None, ext="png", aspect=None):
    import matplotlib.figure as mf
    import matplotlib_scalebar.scalebar as ms

    st = {}
    plain = env.array("d", shape + ((rgb,) if rgb else ()), "uint8")
    data = plain
    if rgb:
        from rsciio.utils.rgb import regular_array2rgbx

        data = regular_array2rgbx(plain)
    sc = env.choose("sc", [0.5, 2e-9, -3.0])
    un, text, dim = env.choose("un", [("nm", "nm", None), ("µm", "µm", None), ("1/nm", "1/nm", "si-length-reciprocal"), (None, "px", "pixel-length")])
    s2, u2 = sc, un
    if bad == "scale":
        s2 = sc * env.choose("f", [1.2, 0.5])
    elif bad == "units":
        u2 = "cm"
    s = dict(data=data, axes=[axis("y", shape[0], nav, 0, s2, 1.0, u2), axis("x", shape[1], nav, 1, sc, -2.0, un)], metadata={}, original_metadata={})
    Figure.log = {}
    old = mf.Figure, ms.ScaleBar
    mf.Figure, ms.ScaleBar = Figure, lambda *a, **k: (a, k)
    kw = dict(scalebar=scalebar, output_size=size, compress_level=3)
    if aspect:
        kw["imshow_kwds"] = dict(aspect=aspect, vmin=1)
    if scalebar:
        kw["scalebar_kwds"] = dict(location="upper right")
    try:
        with library(env, st) as m:
            r, e = env.attempt(lambda: m.file_writer(env.path("a." + ext), s, **kw))
            if bad or ext == "spi":
                env.check(isinstance(e, ValueError), "refused")
                env.check("saved" not in Figure.log and "data" not in st, "nothing written")
                env.cover("read")
                return
            env.check(e is None, "written")
    finally:
        mf.Figure, ms.ScaleBar = old
    L = Figure.log
    f = aspect or 1
    if size is None:
        w, h = shape[1], shape[0] * f
    elif isinstance(size, int):
        w, h = size, size * f * shape[0] / shape[1]
    else:
        w, h = size
    env.check(abs(L["figsize"][0] * L["dpi"] - w) < 1e-9 and abs(L["figsize"][1] * L["dpi"] - h) < 1e-9, "size of the figure")
    env.check(L["rect"] == [0, 0, 1, 1] and L["axis"] == "off", "the image fills the figure")
    env.check(env.same_array(L["data"], plain), "pixels of the figure")
    env.check(L["imshow"] == dict(cmap="gray", **(kw.get("imshow_kwds") and dict(aspect=aspect, vmin=1) or {})), "arguments of imshow")
    env.check(L["saved"] == (env.path("a." + ext), L["dpi"], dict(compress_level=3)), "saved")
    env.check(len(L["artists"]) == scalebar, "scale bar only when asked for")
    if scalebar:
        a, k = L["artists"][0]
        env.check(a[0] == sc and a[1].replace(" ", "") == text and k["location"] == "upper right" and k.get("dimension") == dim, "scale, units and place of the scale bar")
    env.cover("read")


def harnesses(tier):
    hs = []

    def add(name, fn, p, covers=("read",), budget=60):
        hs.append(H(name, fn, p, budget=budget, functions=F, bounds="images up to 3 x 2 (stacks of 2)", covers=list(covers)))

    for lazy in (False, True):
        z = " lazy" if lazy else ""
        for shape in ((2, 3), (3, 2), (1, 3), (2, 1), (1, 1)):
            add(f"image {shape}{z}", h_roundtrip, dict(shape=shape, lazy=lazy))
            for n in (3, 4):
                add(f"colours {shape} {n}{z}", h_roundtrip, dict(shape=shape, rgb=n, lazy=lazy), ("read", "grey", "colours"))
        add(f"16 bit{z}", h_roundtrip, dict(shape=(2, 3), dtype="uint16", lazy=lazy))
        for shape in ((2, 2, 5), (2, 1, 5), (1, 2, 3)):
            add(f"frames {shape}{z}", h_frames, dict(shape=shape, lazy=lazy))
            add(f"frames {shape} colours{z}", h_frames, dict(shape=shape, rgb=3, lazy=lazy), ("read", "grey", "colours"))
        for part in ("", "x", "y", "xyu", "o", "xyuo"):
            add(f"exif {part or 'other'}{z}", h_exif, dict(shape=(2, 3), part=part, lazy=lazy, private=not lazy))
    add("exif colours", h_exif, dict(shape=(3, 2), rgb=3, part="xyuo"), ("read", "grey", "colours"))
    add("arguments", h_roundtrip, dict(shape=(2, 2), kw=dict(compress_level=1)))
    for shape in ((2,), (2, 3), (2, 1, 2)):
        for n in (3, 4):
            for dt in ("uint8", "uint16"):
                add(f"structured {shape} {n} {dt}", h_rgb, dict(shape=shape, n=n, dtype=dt))
            add(f"structured {shape} {n} dask", h_rgb, dict(shape=shape, n=n, dtype="uint8", dask=True))
            add(f"structured {shape} {n} transposed", h_rgb, dict(shape=shape, n=n, dtype="uint16", fortran=True))
    for w in ("size", "dtype"):
        add(f"refused {w}", h_refuse, dict(what=w))
    for sb in (False, True):
        for size in (None, 6, (7, 5)):
            for rgb in (0, 3):
                if size or sb:
                    add(f"figure {size} scale bar={sb} {rgb}", h_figure, dict(shape=(2, 3), size=size, scalebar=sb, rgb=rgb))
            add(f"figure {size} scale bar={sb} aspect", h_figure, dict(shape=(3, 2), size=size, scalebar=sb, aspect=2))
        add(f"figure of navigation scale bar={sb}", h_figure, dict(shape=(2, 3), nav=True, scalebar=sb, size=9))
        add(f"figure unsupported scale bar={sb}", h_figure, dict(shape=(2, 3), ext="spi", scalebar=sb, size=9))
    for b in ("scale", "units"):
        add(f"scale bar refused {b}", h_figure, dict(shape=(2, 3), scalebar=True, bad=b))
    return hs
