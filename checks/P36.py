"""MRCZ files: values, scales, units and parameters."""
import contextlib

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "the mrcz library is trusted for the layout of files: a stand-in keeps what writeMRC is given and readMRC hands it out in the unit asked for (nm for every unit but Å, µm, pm spelled its way), with the keys of its header; the library itself on replay",
]
F = ["rsciio.mrcz._api.file_reader", "rsciio.mrcz._api.file_writer", "rsciio.mrcz._api._parse_metadata"]
ANG = {"\\AA": 1.0, "\\mum": 1e-5, "pm": 100.0}


@contextlib.contextmanager
def library(env, seen):
    from rsciio.mrcz import _api as m

    real = m._mrcz

    class Lib:
        __version__ = real.__version__

        def writeMRC(self, data, name, meta=None, endian="le", dtype=None, pixelsize=(0.1,) * 3, pixelunits="\\AA", shape=None, voltage=0.0, C3=0.0, gain=1.0, compressor=None, clevel=1, n_threads=None, **kw):
            seen["kw"] = dict(compressor=compressor, clevel=clevel, n_threads=n_threads)
            if not env.symbolic:
                return real.writeMRC(data, name, meta=meta, endian=endian, pixelsize=pixelsize, pixelunits=pixelunits, voltage=voltage, C3=C3, gain=gain, clevel=clevel, n_threads=n_threads, **kw)
            if data.ndim != 3 or len(pixelsize) != 3:
                raise ValueError("not three dimensions")
            open(name, "wb").close()
            seen["file"] = dict(name=name, data=data, meta=copy.deepcopy(dict(meta or {})), endian=endian, size=list(pixelsize), units=pixelunits, voltage=voltage or 0.0, C3=C3, gain=gain, compressor=compressor)

        def asyncWriteMRC(self, *a, **kw):
            seen["async"] = True
            return self.writeMRC(*a, **kw)

        def readMRC(self, name, endian="le", useMemmap=False, pixelunits="\\AA", **kw):
            seen["read"] = dict(endian=endian, useMemmap=useMemmap, **kw)
            if not env.symbolic:
                return real.readMRC(name, endian=endian, useMemmap=useMemmap, pixelunits=pixelunits, **kw)
            f = seen["file"]
            if f["name"] != str(name) or (f["endian"] != endian and f["data"].dtype.itemsize == 1):
                raise ValueError("another file or an unreadable byte order")
            norm = lambda u: u if u in ANG else "nm"
            a, b = norm(f["units"]), norm(pixelunits)
            r = {"nm": 0.1, **ANG}
            size = [s if a == b else s / r[a] * r[b] for s in f["size"]]
            h = {"dimensions": np.array(f["data"].shape), "MRCtype": 2, "compressor": f["compressor"], "dtype": "<f4", "pixelsize": size, "pixelunits": pixelunits, "minImage": 0.0, "maxImage": 0.0, "meanImage": 0.0, "extendedBytes": 10, "metaId": b"json", "voltage": f["voltage"], "C3": f["C3"], "gain": f["gain"], "packedBytes": 0}
            for k, v in f["meta"].items():
                h.setdefault(k, v)
            return f["data"], h

        def __getattr__(self, k):
            return getattr(real, k)

    m._mrcz = Lib()
    try:
        yield m
    finally:
        m._mrcz = real


def close(env, a, b):
    if env.is_sym(a) or env.is_sym(b):
        return env.same(a, b)
    return abs(a - b) <= 1e-5 * abs(b)


def sig(env, shape, dtype, scales, units, md=None):
    if dtype == "complex64":
        a = env.array("d", shape, "float32")
        d = a.astype("complex64")
    else:
        d = env.array("d", shape, dtype)
    ax = [axis(n, s, i == 0, i, sc, 0.0, u) for i, (n, s, sc, u) in enumerate(zip("zyx", shape, scales, units))]
    return dict(data=d, axes=ax, metadata=md or {}, original_metadata={}), d


def h_roundtrip(env, shape, dtype, end, lazy, do_async):
    scales = [env.float("s%d" % i, "d") for i in range(3)]
    for s in scales:
        env.assume(env.all(s > 1e-6, s < 1e6))
    kv, gain = env.float("kv", "d"), env.float("gain", "d")
    for s in (kv, gain):
        env.assume(env.all(s > 1e-3, s < 1e6))
    hv, hg = env.choose("has", [(True, True), (False, True), (True, False)])
    md = {"General": {"title": "tilt 3.5"}, "Signal": {"signal_type": ""}, "Sample": {"elements": ["Al", "O"], "a.b": {"c": 3}}}
    if hv:
        md["Acquisition_instrument"] = {"TEM": {"beam_energy": kv, "mag": 25000}}
    if hg:
        md["Signal"]["Noise_properties"] = {"Variance_linear_model": {"gain_factor": gain}}
    if not env.symbolic:
        md = plain(md)
    s, d = sig(env, shape, dtype, scales if env.symbolic else [float(q) for q in scales], ["nm"] * 3, md)
    keep = copy.deepcopy(md)
    seen = {}
    f = env.path("a.mrcz")
    comp, level = env.choose("compressor", [(None, 1), ("zstd", 9), ("lz4", 1)])
    with library(env, seen) as m:
        m.file_writer(f, s, endianness=end, do_async=do_async, compressor=comp, clevel=level, n_threads=2)
        if env.symbolic:
            order = {"le": "<"}.get(seen["file"]["endian"], ">")
        else:
            with open(f, "rb") as fh:
                order = "<" if fh.read(4) == int(shape[2]).to_bytes(4, "little") else ">"
        env.check(order == end, "byte order as asked for")
        out = m.file_reader(f, endianness=end, lazy=lazy)
    env.check(len(out) == 1, "one signal")
    o = out[0]
    env.check(tuple(o["data"].shape) == tuple(shape) and env.same_array(o["data"], d, dtype=False), "values")
    env.check(seen["kw"] == dict(compressor=comp, clevel=level, n_threads=2), "compression as asked for")
    env.check(seen.get("async", False) == do_async, "written in the background if, and only if, asked for")
    env.check(bool(seen["read"]["useMemmap"]) == lazy, "mapped if, and only if, lazy")
    want = dict(zip("zyx", zip(range(3), shape, scales)))
    env.check([a["name"] for a in o["axes"]] == ["z", "y", "x"], "order of the axes")
    for i, a in enumerate(o["axes"]):
        k, n, sc = want[a["name"]]
        env.check(a["index_in_array"] == k == i and a["size"] == n and a["units"] == "nm" and a["offset"] == 0 and a["navigate"] == (k == 0), "axis")
        env.check(close(env, a["scale"], sc), "scale of each axis")
    got, h = o["metadata"], o["original_metadata"]["mrcz_header"]
    env.check(got["General"] == keep["General"] and got["Sample"] == keep["Sample"], "metadata kept")
    env.check(set(got) == set(keep), "no key of the header in the metadata")
    if hv:
        env.check(close(env, got["Acquisition_instrument"]["TEM"]["beam_energy"], kv) and got["Acquisition_instrument"]["TEM"]["mag"] == 25000, "instrument kept")
    env.check(close(env, h["voltage"], kv) if hv else h["voltage"] == 0, "beam energy in the header")
    env.check(close(env, h["gain"], gain) if hg else h["gain"] == 1, "gain in the header")
    env.check(set(s["metadata"]) == set(keep), "the signal's metadata untouched")
    mp = o["mapping"]
    env.check({k: v[0] for k, v in mp.items()} == {"mrcz_header.voltage": "Acquisition_instrument.TEM.beam_energy", "mrcz_header.gain": "Signal.Noise_properties.Variance_linear_model.gain_factor"}, "mapping")
    env.check(mp["mrcz_header.voltage"][1](h["voltage"]) is h["voltage"], "beam energy mapped as it is")
    env.cover("read")


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, np.floating):
        return float(x)
    return x


NM = {"nm": 1.0, "µm": 1000.0, "um": 1000.0, "pm": 1e-3, "Å": 0.1, "angstrom": 0.1, "m": 1e9}


def h_units(env, spread):
    """lengths of other units come back in nm with the same size"""
    u = [env.choose("u%d" % i, list(NM)) for i in range(3 if spread else 1)]
    u = u if spread else u * 3
    sc = [0.5, 2.0, 3.25] if spread else [env.choose("s%d" % i, [0.5, 2.0, 3.25]) for i in range(3)]
    s, d = sig(env, (2, 2, 3), "int16", sc, u)
    seen = {}
    f = env.path("a.mrcz")
    with library(env, seen) as m:
        m.file_writer(f, s)
        o = m.file_reader(f)[0]
    env.check(env.same_array(o["data"], d, dtype=False), "values")
    for i, a in enumerate(o["axes"]):
        env.check(a["units"] == "nm" and close(env, a["scale"], sc[i] * NM[u[i]]), "length of the pixels")
    env.check([a["units"] for a in s["axes"]] == u and [a["scale"] for a in s["axes"]] == sc, "the signal's axes untouched")
    env.cover("read")


def h_other(env):
    """axes which are no lengths keep their numbers"""
    u = env.choose("u", [None, "", "s", "eV", "1/nm", "<undefined>", "frames of 3"])
    sc = [env.choose("s%d" % i, [0.5, 2.0]) for i in range(3)]
    s, d = sig(env, (2, 2, 3), "int16", sc, [u, "nm", "nm"])
    f = env.path("a.mrcz")
    with library(env, {}) as m:
        m.file_writer(f, s)
        o = m.file_reader(f)[0]
    env.check(env.same_array(o["data"], d, dtype=False) and all(close(env, a["scale"], q) for a, q in zip(o["axes"], sc)), "values and scales")
    env.cover("read")


def h_mode(env):
    mode = env.choose("mode", ["c", "r", "r+"])
    s, d = sig(env, (2, 2, 3), "int16", [1.0, 2.0, 4.0], ["nm"] * 3)
    f = env.path("a.mrcz")
    with library(env, {}) as m:
        m.file_writer(f, s)
        out, err = env.attempt(lambda: m.file_reader(f, mmap_mode=mode))
    env.check((err is None) == (mode == "c"), "memory maps of another mode are refused")
    env.check(err is None or isinstance(err, ValueError), "kind of error")
    env.cover("seen")


def harnesses(tier):
    b = dict(functions=F, budget=120)
    out = []
    combos = [((2, 3, 4), "float32", "<", False, False), ((2, 3, 4), "int16", ">", False, False), ((1, 2, 3), "int8", "<", True, False), ((3, 2, 2), "uint16", "<", False, True), ((2, 1, 3), "complex64", ">", True, False)]
    if tier != "quick":
        combos += [((3, 4, 5), t, e, l, False) for t in ("float32", "int8", "uint16", "complex64") for e in "<>" for l in (False, True)]
    for sh, t, e, l, a in combos:
        out.append(H("roundtrip", h_roundtrip, dict(shape=sh, dtype=t, end=e, lazy=l, do_async=a), covers=["read"], bounds=dict(shape=sh), **b))
    out.append(H("units", h_units, dict(spread=False), covers=["read"], bounds=dict(units=len(NM)), **b))
    out.append(H("units", h_units, dict(spread=True), covers=["read"], bounds=dict(units=len(NM)), **b))
    out.append(H("other", h_other, {}, covers=["read"], bounds=dict(units=7), **b))
    out.append(H("mode", h_mode, {}, covers=["seen"], bounds=dict(modes=3), **b))
    return out
