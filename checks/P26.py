"""Delmic cathodoluminescence files (HDF5)."""
import json

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "h5py is trusted for storage: the real h5py runs on a scratch file, symbolic contents are kept beside it; the plain h5py on replay",
    "titles, states, dimension labels and image sizes concrete; pixels, offsets of the images and stored numbers symbolic; pixel sizes, wavelengths and times chosen by the solver from lists covering every unit prefix",
    "times of acquisition between 1970 and 2100, two acquisitions never at the same instant",
]
F = ["rsciio.delmic._api." + n for n in ("file_reader", "read_acquisition", "make_axes", "make_metadata", "make_original_metadata", "guess_signal_type", "merge_ar_data", "squeeze_dimensions", "reorder_dimensions", "get_unit_prefix", "unit_factor", "_h5svi_get_state", "load_image", "read_image_title")]
SE, SURVEY, PMT, DRIFT = "Secondary electrons concurrent", "Secondary electrons survey", "CL intensity", "Anchor region"
FACTOR = {"f": 1e15, "p": 1e12, "n": 1e9, "µ": 1e6, "m": 1e3, "": 1}
NAMES = {"C": "Wavelength", "T": "Time", "A": "Angle", "Z": "Z", "Y": "Y", "X": "X"}
ORDER = "ZYXTAC"


def prefix(x):
    x = abs(x)
    for p, lo in (("m", 1e-3), ("µ", 1e-6), ("n", 1e-9), ("p", 1e-12), ("f", 1e-15)):
        if lo <= x < lo * 1000 and x < 1:
            return p
    return ""


def create(f, name, title, data, dims="CTZYX", step=(None, None, None), centre=(None, None, None), scales=(), when=1751548623.5, physical=(), states=None, sv=True):
    """one acquisition; step and centre for Z, Y, X"""
    import h5py

    g = f.create_group(name)
    im = g.create_group("ImageData")
    d = im.create_dataset("Image", data=data)
    for i, k in enumerate(dims):
        d.dims[i].label = k
    for k, s, c in zip("ZYX", step, centre):
        if s is not None:
            im.create_dataset("DimensionScale" + k, data=s)
        if c is not None:
            im.create_dataset(k + "Offset", data=c)
    for k, v in dict(scales).items():
        im.create_dataset("DimensionScale" + k, data=v)
    im.create_dataset("TOffset", data=when)
    p = g.create_group("PhysicalData")
    p.create_dataset("Title", data=np.bytes_(title.encode()))
    items = {"ChannelDescription": np.array([title.encode()], dtype=object)}
    items.update(dict(physical))
    for k, v in items.items():
        ds = p.create_dataset(k, data=v, dtype=h5py.special_dtype(vlen=bytes)) if isinstance(v, np.ndarray) and v.dtype == object else p.create_dataset(k, data=v)
        st = (states or {}).get(k, 114)
        if st is not None:
            ds.attrs["State"] = np.array([st], "int32")
    if sv:
        s = g.create_group("SVIData")
        s.create_dataset("Company", data=np.bytes_(b"Delmic"))
        s.create_dataset("WriterVersion", data=np.bytes_("3.5 µ".encode()))
    return g


def spatial(env, ax, n, step, centre, up):
    """pixel k lies at centre + (k - (n - 1) / 2) * step, in units of the prefix"""
    p = prefix(step)
    s = -step if up else step
    env.check(ax["units"] == p + "m", "units")
    env.check(ax["size"] == n and ax["navigate"] is True and "axis" not in ax, "size and kind of the axis")
    env.check(env.same(ax["scale"], s * FACTOR[p]), "pixel size")
    env.check(env.same(ax["offset"], (centre - ((n - 1) / 2) * s) * FACTOR[p]), "position of the first pixel")


def full(env, ax, values, unit):
    p = prefix(float(np.mean(values)))
    env.check(ax["units"] == p + unit and ax["navigate"] is False, "units of the signal axis")
    env.check(ax["axis"].shape == values.shape and bool(np.all(np.asarray(ax["axis"]) == values * FACTOR[p])), "values of the signal axis")


def pixels(env, name, axes):
    env.check(axes["name"] == name and axes["navigate"] is False and list(axes["axis"]) == list(range(len(axes["axis"]))), "numbered pixels")


def read(env, **kw):
    from rsciio.delmic import file_reader

    return file_reader(env.path("a.h5"), **kw)


def new(env):
    import h5py

    return h5py.File(env.path("a.h5"), "w")


def arrange(env, data, dims):
    """the signal of a stored image: empty dimensions dropped, Z Y X Time Angle Wavelength"""
    keep = [i for i in range(data.ndim) if data.shape[i] != 1]
    order = sorted(keep, key=lambda i: ORDER.index(dims[i]))
    a = env.nd(data)
    a = a.transpose(order + [i for i in range(data.ndim) if i not in keep])
    return a.reshape(tuple(data.shape[i] for i in order)), [dims[i] for i in order]


STEPS = [4.8828125e-06, 3e-15, 5.5e-10, 7.1267e-9, 0.25, 2.0, 1e-6, 1e-3, 9.5e-13, 1e-9]


def h_image(env, shape, dims="CTZYX", title="Spectrum of a spot", kind=None, dtype="uint16", scales=(), extra=(), signal="cl", signal_type=""):
    """one acquisition between a survey and an incomplete group"""
    data = env.array("d", shape, dtype)
    step = env.choose("step", STEPS)
    if len(shape) * max(shape) > 24:
        step = STEPS[0]
    ystep = step * 2
    c = [env.float("c" + k) for k in "ZYX"]
    for x in c:
        env.assume(env.all(x >= -1.0, x <= 1.0))
    when = env.int("when", 0, 2**32 - 1)
    sc = {}
    for k, (n, vals) in dict(scales).items():
        v = env.choose("scale" + k, vals)
        sc[k] = np.array([v * (1 + i * i / 16) for i in range(n)])
    f = new(env)
    create(f, "Acquisition0", SURVEY, np.zeros((1, 1, 1, 2, 2), "uint8"), step=(0, 1e-6, 1e-6), centre=(0, 0.0, 0.0))
    create(f, "Acquisition1", title, data, dims, (1e-6 if shape[2] > 1 else 0, ystep, step), c, sc, when * 1.0 + 0.25, extra)
    create(f, "Acquisition2", title, data, dims, sv=False)
    f.create_group("Preview").create_dataset("x", data=np.zeros(3))
    f.close()
    out = read(env, signal=signal)
    env.check(len(out) == (2 if signal == "all" else 1), "the acquisitions of the wanted kind")
    s = out[0]
    want, names = arrange(env, data, dims)
    env.check(env.same_array(s["data"], want), "every value in its place")
    env.check(s["data"].dtype == np.dtype(dtype), "data type")
    env.check([a["name"] for a in s["axes"]] == [NAMES[k] for k in names], "axes")
    for a, k in zip(s["axes"], names):
        n = shape[dims.index(k)]
        if k in "ZYX":
            i = "ZYX".index(k)
            spatial(env, a, n, (1e-6, ystep, step)[i], c[i], k == "Y")
        elif k in sc and k != "A":
            full(env, a, sc[k], "m" if k == "C" else "s")
        elif k == "A":
            pixels(env, "Angle", a)
            env.check(len(a["axis"]) == n, "length of the angle axis")
        else:
            env.check(a.get("size") == n and a.get("scale", 1) == 1 and a.get("offset", 0) == 0 and a.get("navigate") is False, "a signal axis without calibration counts its pixels")
    md = s["metadata"]
    env.check(md["General"]["title"] == title and md["Signal"]["signal_type"] == signal_type and md["Signal"]["quantity"] == "Counts", "metadata")
    env.check(env.same(s["original_metadata"]["AcquisitionDate"], when * 1.0 + 0.25), "date in the original metadata")
    if kind is not None:
        env.check(s["_acq_type"].value == kind, "kind of acquisition")
    env.cover("read")


SPEC = {"C": (3, [5e-7, 2e-6, 4e-10, 1.5e-3, 3.0])}
TIME = {"T": (3, [5e-9, 2e-12, 4e-10, 1.5e-3, 3.0])}
ANG = {"A": (2, [0.5])}


def h_meta(env, states, values, pol=None):
    """values of the physical data: those marked invalid are dropped, the others kept"""
    import datetime

    settings = {"SEM": {"dwell": [1e-5, "s"], "n": 3}}
    v = {"Baseline": env.float("b"), "ImagingDirection": env.int("i", -2**31, 2**31 - 1), "Scalar": env.float("s")}
    phys = {
        "Baseline": env.array("ba", (1,), "float64"),
        "ImagingDirection": env.array("ia", (1,), "int32"),
        "PolePosition": env.array("pp", (1, 2), "float64"),
        "Scalar": v["Scalar"],
        "HardwareName": np.array(["caméra".encode()], dtype=object),
        "ExtraSettings": np.array([json.dumps(settings).encode()], dtype=object),
    }
    if pol is not None:
        phys["Polarization"] = np.array([pol.encode()], dtype=object)
    when = env.choose("when", [0.0, 1751548623.5, 951782399.25, 4102444799.0])
    f = new(env)
    data = env.array("d", (2, 1, 1, 1, 1), "uint8")
    g = create(f, "Acquisition7", "Spectrum", data, "CTZYX", (0, 1e-6, 1e-6), (0, 0.0, 0.0), {"C": np.array([5e-7, 6e-7])}, when, phys, states)
    g["PhysicalData"].create_group("Folder")
    f.close()
    out = read(env)
    env.check(len(out) == 1, "one acquisition")
    om, md = out[0]["original_metadata"], out[0]["metadata"]
    st = {k: states.get(k, 114) for k in phys}
    for k in phys:
        if st[k] == 111:
            env.check(k not in om, "an invalid value is left out")
            continue
        env.check(k in om, "value kept")
        if k in ("Baseline", "ImagingDirection"):
            env.check(env.same(om[k], phys[k][0]), "number")
        elif k == "Scalar":
            env.check(env.same(om[k], phys[k]), "number")
        elif k == "PolePosition":
            env.check(isinstance(om[k], list) and len(om[k]) == 2 and env.all(*[env.same(a, b) for a, b in zip(om[k], phys[k][0])]), "list")
        elif k == "HardwareName":
            env.check(om[k] == "caméra", "text")
        elif k == "ExtraSettings":
            env.check(om[k] == settings, "settings")
    env.check("Title" not in om and om["ChannelDescription"] == "Spectrum" and om["HDF5Group"] == "/Acquisition7" and om["SVIData"] == {"Company": "Delmic", "WriterVersion": "3.5 µ"}, "description")
    t = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=float(when))
    env.check(om["AcquisitionDate"] == when and md["General"]["date"] == t.date().isoformat() and md["General"]["time"] == t.time().isoformat(), "date and time")
    if pol is not None and st["Polarization"] != 111:
        env.check(md["Acquisition_instrument"]["Spectrometer"]["Filter"] == {"filter_type": "polarization analyzer", "position": pol}, "polarization")
    else:
        env.check("Acquisition_instrument" not in md, "no polarization")
    env.cover("read")


def h_kinds(env, signal):
    """a file with an acquisition of every kind: what is returned, in which order"""
    pole = {"PolePosition": np.array([[3.0, 4.0]])}
    f = new(env)
    arrs, want = {}, []
    xy = dict(step=(0, 1e-6, 1e-6), centre=(0, 0.0, 0.0))
    C, T, A = np.array([5e-7, 6e-7]), np.array([1e-9, 2e-9]), np.array([0.1, 0.2])
    items = [
        ("survey", SURVEY, (1, 1, 1, 2, 2), "CTZYX", {}, {}),
        ("se", SE, (1, 1, 1, 1, 2), "CTZYX", {}, {}),
        ("anchor", DRIFT, (1, 2, 1, 2, 1), "CTZYX", {}, {}),
        ("pmt", PMT, (1, 1, 1, 1, 2), "CTZYX", {}, {}),
        ("ek1", "AR Spectrum", (2, 2, 1, 1, 2), "CAZYX", {"C": C, "A": A}, pole),
        ("temporal spectrum", "Temporal Spectrum", (2, 2, 1, 1, 1), "CTZYX", {"C": C, "T": T}, pole),
        ("temporal", "Time Correlator", (1, 2, 1, 1, 2), "CTZYX", {"T": T}, {}),
        ("spectrum", "Large Area Spectrum", (2, 1, 1, 1, 2), "CTZYX", {"C": C}, {}),
        ("__unknown__", "something", (1, 1, 1, 2, 2), "CTZYX", {}, {}),
    ]
    rot = env.choose("rotation", list(range(len(items))))
    for i, (k, title, shape, dims, sc, ph) in enumerate(items[rot:] + items[:rot]):
        arrs[k] = (env.array("d_" + k[:4], shape, "uint8"), dims, title)
        create(f, "Acquisition%d" % i, title, arrs[k][0], dims, scales=sc, physical=ph, when=100.0 + i, **xy)
    f.close()
    out = read(env, signal=signal)
    rank = ["pmt", "ek1", "temporal spectrum", "temporal", "spectrum", "se", "anchor", "__unknown__", "survey"]
    want = {"cl": rank[:5], "all": rank}.get(signal, [signal])
    env.check([s["_acq_type"].value for s in out] == want, "kinds of acquisitions, in their order")
    types = {"temporal spectrum": "LumiTransientSpectrum", "temporal": "LumiTransient", "spectrum": "CL_SEM"}
    for s, k in zip(out, want):
        a, dims, title = arrs[k]
        env.check(env.same_array(s["data"], arrange(env, a, dims)[0]), "every value in its place")
        env.check(s["metadata"]["General"]["title"] == title and s["metadata"]["Signal"]["signal_type"] == types.get(k, ""), "title and signal type")
        env.check(len(s["axes"]) == len(s["data"].shape), "one axis per dimension")
    env.cover("read")


def h_ar(env, n, shape, pols=(None,), se=True, missing=0, signal="cl"):
    """angle-resolved images of a scan, one acquisition each, sorted by time"""
    Y, X = n
    B, A = shape
    cnt = Y * X - missing
    f = new(env)
    ims, when, k = {}, {}, 0
    c = [env.float("cy"), env.float("cx")]
    for x in c:
        env.assume(env.all(x >= -1.0, x <= 1.0))
    for p in pols:
        ims[p] = [env.array("d%s%d" % (p, i), (1, 1, 1, B, A), "uint16") for i in range(cnt)]
        when[p] = [env.int("t%s%d" % (p, i), 0, 2**32 - 1) for i in range(cnt)]
        for a, b in itertools.combinations(when[p], 2):
            env.assume(env.not_(a == b))
        for i in range(cnt):
            ph = {"PolePosition": np.array([[3.0, 4.0]])}
            if p:
                ph["Polarization"] = np.array([p.encode()], dtype=object)
            create(f, "Acquisition%d" % k, "Angle-resolved", ims[p][i], step=(0, 1e-5, 1e-5), centre=(0, 0.0, 0.0), when=when[p][i] * 1.0, physical=ph)
            k += 1
    if se:
        sed = env.array("se", (1, 1, 1, Y, X), "uint8")
        create(f, "Acquisition%d" % k, SE, sed, step=(0, 2e-9, 3e-6), centre=(0, c[0], c[1]), when=1.0)
    f.close()
    out = read(env, signal=signal)
    if not se or missing:
        # separate images when the scan cannot be put together
        env.check(len(out) == cnt * len(pols), "every image is returned")
        i = 0
        for p in pols:
            for a in ims[p]:
                env.check(env.same_array(out[i]["data"], arrange(env, a, "CTZYX")[0]), "image of its own")
                i += 1
        env.cover("read")
        return
    m = len(pols)
    env.check(len(out) == m + (1 if signal == "all" else 0), "one signal per polarization")
    keep = [k for k, x in enumerate((Y, X, B, A)) if x > 1]
    for s, p in zip(out, pols):
        # position of each image: number of images acquired before it
        d = env.nd(s["data"]).reshape((Y * X, B, A))
        for i in range(cnt):
            pos = sum(env.ite(when[p][j] < when[p][i], 1, 0) for j in range(cnt) if j != i)
            for q in range(cnt):
                same = env.same_array(d[q], env.nd(ims[p][i]).reshape((B, A)))
                env.check(env.any(env.not_(pos == q) if env.is_sym(pos) else pos != q, same), "the image acquired at a position of the scan")
        env.check(tuple(s["data"].shape) == tuple((Y, X, B, A)[k] for k in keep), "shape")
        env.check([a["name"] for a in s["axes"]] == [("Y", "X", "Angle B", "Angle A")[k] for k in keep], "axes")
        for a, k in zip(s["axes"], keep):
            if k < 2:
                spatial(env, a, n[k], (2e-9, 3e-6)[k], c[k], k == 0)
            else:
                pixels(env, ("Angle B", "Angle A")[k - 2], a)
                env.check(len(a["axis"]) == shape[k - 2], "length")
        fil = dget(s["metadata"], "Acquisition_instrument.Spectrometer.Filter.position")
        env.check(fil == p, "polarization")
        first = s["original_metadata"]["AcquisitionDate"]
        env.check(env.all(*[first <= t * 1.0 for t in when[p]]), "metadata of the first image")
    if signal == "all":
        env.check(out[-1]["_acq_type"].value == "se" and env.same_array(out[-1]["data"], arrange(env, sed, "CTZYX")[0]), "electron image")
    env.cover("read")


def h_refuse(env, what):
    from rsciio.delmic import file_reader

    f = new(env)
    d = env.array("d", (1, 1, 1, 2, 2), "uint8")
    kw = {}
    if what == "empty":
        f.create_group("Other")
    elif what == "signal":
        create(f, "Acquisition0", SE, d, step=(0, 1e-6, 1e-6), centre=(0, 0.0, 0.0))
        kw["signal"] = "cl_"
    elif what == "lazy":
        create(f, "Acquisition0", PMT, d, step=(0, 1e-6, 1e-6), centre=(0, 0.0, 0.0))
        kw["lazy"] = True
    else:
        create(f, "Acquisition0", SE, d, step=(0, 1e-6, 1e-6), centre=(0, 0.0, 0.0))
    f.close()
    _, err = env.attempt(lambda: file_reader(env.path("a.h5"), **kw))
    env.check(isinstance(err, {"signal": ValueError, "lazy": NotImplementedError}.get(what, OSError)), "refused")
    env.cover("read")


def H_(name, fn, params, budget=30, bounds=""):
    def text(p):
        return " ".join(f"{k}={v}" for k, v in p.items() if k not in ("kind", "scales", "values", "signal_type"))

    return [H(name + " " + text(p), fn, p, budget=budget, functions=F, bounds=bounds, covers=["read"]) for p in params]


E = {"C": (3, [5e-7]), "T": (2, [5e-9])}
def harnesses(tier):
    hs = []
    hs += H_("spectra", h_image, [dict(shape=(3, 1, 1, 1, 1), scales=SPEC, kind="spectrum", signal_type="CL_SEM"), dict(shape=(3, 1, 1, 2, 2), scales=SPEC, kind="spectrum", signal_type="CL_SEM"),
                            dict(shape=(3, 1, 1, 1, 2), scales=SPEC, kind="spectrum", signal_type="CL_SEM", dtype="float64", signal="all"), dict(shape=(2, 1, 2, 1, 2), kind="spectrum", signal_type="CL_SEM", dtype="uint32")],
       60, "spectra at a spot, on a line, a map and a stack")
    hs += H_("times", h_image, [dict(shape=(1, 3, 1, 2, 1), title="Time Correlator", scales=TIME, kind="temporal", signal_type="LumiTransient"), dict(shape=(3, 2, 1, 1, 2), title="Temporal Spectrum", scales=E, kind="temporal spectrum", signal_type="LumiTransientSpectrum", dtype="uint32"),
                          dict(shape=(1, 3, 1, 1, 1), title="Time Correlator", scales=TIME, kind="temporal", signal_type="LumiTransient")],
       60, "time traces and streak camera images")
    hs += H_("angles", h_image, [dict(shape=(3, 2, 1, 1, 2), dims="CAZYX", title="AR Spectrum", scales={"C": (3, [5e-7]), **ANG}, kind="ek1"), dict(shape=(2, 3, 1, 1, 1), dims="CAZYX", title="AR Spectrum", kind="ek1", scales={"A": (3, [0.5])})], 60, "energy-momentum images")
    hs += H_("images", h_image, [dict(shape=(1, 1, 1, 2, 3), title=PMT, kind="pmt"), dict(shape=(1, 1, 1, 2, 3), title=SE, kind="se", signal="se"), dict(shape=(1, 1, 1, 2, 1), title=PMT, kind="pmt", dtype="float64"),
                           dict(shape=(1, 3, 1, 2, 2), title=DRIFT, kind="anchor", signal="anchor")], 60, "intensity maps and electron images")
    hs += H_("metadata", h_meta, [dict(states={"Baseline": 111, "Scalar": 111}, values=0), dict(states={"ImagingDirection": 111, "ExtraSettings": 113, "Scalar": 115}, values=0, pol="lhc"), dict(states={"Polarization": 111, "PolePosition": 111}, values=0, pol="lhc"),
                            dict(states={"HardwareName": None, "Baseline": None}, values=0)], 30, "six stored values, with states from invalid to verified and without a state")
    hs += H_("kinds", h_kinds, [dict(signal=s) for s in ("cl", "all", "se", "survey", "anchor")], 90, "nine acquisitions in nine orders of the file")
    hs += H_("angle-resolved", h_ar, [dict(n=(1, 1), shape=(2, 3)), dict(n=(1, 3), shape=(2, 2)), dict(n=(2, 2), shape=(1, 2)), dict(n=(2, 1), shape=(2, 2), pols=("lhc", "rhc")), dict(n=(1, 2), shape=(2, 2), signal="all"), dict(n=(1, 1), shape=(2, 2), pols=("a", "b", "c"), signal="all")],
       120, "scans of up to 2 x 2 images of up to 2 x 3 pixels, acquired in every order, up to 3 polarizations")
    hs += H_("incomplete scan", h_ar, [dict(n=(1, 3), shape=(2, 2), missing=1), dict(n=(1, 2), shape=(2, 2), se=False), dict(n=(1, 2), shape=(2, 2), se=False, pols=("lhc", "rhc"))], 60, "angle-resolved images without electron image, or too few")
    hs += H_("refused", h_refuse, [dict(what=w) for w in ("empty", "signal", "lazy", "none")], 20, "files without acquisitions, unknown signals")
    return hs
