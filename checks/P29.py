"""Tofwerk FIB-SIMS files (HDF5) and the counting of ions of raw files."""
import sys
import types

from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "h5py is trusted for storage: the real h5py runs on a scratch file, symbolic contents are kept beside it; the plain h5py on replay",
    "peak tables, mass axes and calibrations concrete; integration windows which do not overlap (they may touch: an ion exactly at the limit counts for the upper one)",
    "events of whole files concrete (HDF5 of variable length); symbolic in the counting itself, where the compiled kernel runs as the python code it is compiled from",
]
F = ["rsciio.tofwerk._api." + n for n in ("file_reader", "available_signals", "_build_metadata", "_build_axes_preprocessed", "_peak_table_to_list", "_split_peak_table", "_compute_peak_data_from_file", "_parse_pixel_size", "_parse_creation_time")] + ["rsciio.tofwerk._reconstruction." + n for n in ("compute_peak_data_from_eventlist", "_accumulate_peak_counts", "_flatten_event_row", "count_active_channels")]
TABLES = {
    # label, mass, lower and upper limit
    "nominal": [("nominal", 1.0, 0.5, 1.5), ("nominal", 2.0, 1.5, 2.5), ("nominal_1", 4.0, 3.5, 4.5)],
    "mixed": [("[194Pt]", 4.25, 4.0, 4.5), ("nominal", 1.0, 0.5, 1.5), ("a", 0.75, 0.5, 1.0), ("nominal", 2.0, 1.5, 2.5), ("b", 3.0, 2.75, 3.25)],
    "sorted": [("nominal", 1.0, 0.5, 1.5), ("a", 0.75, 0.5, 1.0), ("b", 3.0, 2.75, 3.25), ("nominal", 5.0, 4.5, 5.5)],
    "custom": [("c", 3.0, 2.5, 3.5), ("b", 2.0, 1.5, 2.5), ("a", 1.0, 0.5, 1.5)],
}
MZ = [None, (0.0, 10.0), (1.0, 3.0), (0.75, 0.8), (3.5, 4.25), (4.0, 10.0), (7.0, 8.0)]
NAMES = ["sum_spectrum", "nominal_peak_data", "additional_peak_data", "event_list", "fib_images"]


def file(env, table="mixed", nw=2, ns=2, nx=3, dtype="float32", peaks=True, events=None, images=(), mass=(0.0, 0.75, 1.0, 2.0, 3.0, 4.25, 5.0, 9.0), clock=None, ini="[TOFParameter]\nCh1Record=1\nCh2Record=0\nCh3Record=1\n", waveforms=1, view=0.012, extra_event_slice=True):
    import h5py

    f = h5py.File(env.path("run_1.h5"), "w")
    for k, v in {"TofDAQ Version": np.float32(1.75), "NbrWrites": np.int32(nw), "NbrSegments": np.int32(ns), "NbrWaveforms": np.int32(waveforms), "IonMode": b"positive", "DAQ Hardware": b"hw", "Computer ID": b"pc", "Configuration File Contents": ini.encode()}.items():
        f.attrs[k] = v
    f.create_group("AcquisitionLog").create_dataset("Log", data=np.array([(0, b"2025-06-01T08:15:30-05:30", b"start")], dtype=[("timestamp", "u8"), ("timestring", "S26"), ("logtext", "S9")]))
    f.create_group("TimingData").attrs["TofPeriod"] = np.int32(9500)
    fs = f.create_group("FullSpectra")
    p1 = env.float("p1")
    fs.attrs["MassCalibration p1"] = p1
    fs.attrs["MassCalibration p2"] = np.float64(222.5)
    fs.attrs["SampleInterval"] = np.float64(8e-10)
    if clock:
        fs.attrs["ClockPeriod"] = np.float64(clock)
    fs.create_dataset("MassAxis", data=np.array(mass, "float32"))
    ssum = env.array("sum", (len(mass),), "float64")
    fs.create_dataset("SumSpectrum", data=ssum)
    g = f.create_group("PeakData")
    t = TABLES[table]
    tab = np.array([(a.encode(), m, lo, hi) for a, m, lo, hi in t], dtype=[("label", "S64"), ("mass", "f4"), ("lower integration limit", "f4"), ("upper integration limit", "f4")])
    g.create_dataset("PeakTable", data=tab)
    data = None
    if peaks:
        data = env.array("pd", (nw, ns, nx, len(t)), dtype)
        g.create_dataset("PeakData", data=data)
    if events is not None:
        el = fs.create_dataset("EventList", shape=(nw + extra_event_slice, ns, nx), dtype=h5py.vlen_dtype(np.uint16))
        for i in itertools.product(*map(range, el.shape)):
            el[i] = np.array(events(*i), "uint16")
    fib = f.create_group("FIBParams")
    fib.attrs["FibHardware"], fib.attrs["Voltage"], fib.attrs["Current"], fib.attrs["ViewField"] = b"fib", np.float64(30000.0), np.float64(1e-9), np.float64(view)
    im = f.create_group("FIBImages")
    arrs = []
    for k, shape in enumerate(images):
        arrs.append(env.array(f"im{k}", shape, "uint16"))
        im.create_group(f"Image{k:04d}").create_dataset("Data", data=arrs[-1])
    f.close()
    return dict(table=t, data=data, sum=ssum, mass=np.array(mass, "float32"), images=arrs, p1=p1, nx=nx, ns=ns, nw=nw, view=view)


def spatial(env, s, fx, n0, nx, ny, nav):
    ax = s["axes"]
    env.check([a["name"] for a in ax[:3]] == ["depth", "y", "x"], "axes depth, y, x")
    env.check([a["size"] for a in ax[:3]] == [n0, ny, nx], "sizes of the axes")
    env.check([a["navigate"] for a in ax[:3]] == [True, nav, nav], "kind of the axes")
    px = fx["view"] * 1e3 / nx
    env.check(all(abs(a["scale"] - px) < 1e-9 and a["offset"] == 0 and a["units"] == "µm" for a in ax[1:3]), "pixel size")
    env.check(ax[0]["scale"] == 1 and ax[0]["offset"] == 0, "depth in slices")


def general(env, s, fx):
    md = s["metadata"]
    g = md["General"]
    env.check(g["date"] == "2025-06-01" and g["time"] == "08:15:30" and g["time_zone"] == "-05:30" and g["title"].startswith("run_1"), "date, time and title")
    m = md["Acquisition_instrument"]["FIB_SIMS"]
    env.check(env.same(m["ToF"]["mass_calib_p1"], fx["p1"]) and m["ToF"]["mass_calib_p2"] == 222.5 and m["ToF"]["ion_mode"] == "positive" and m["FIB"]["voltage_kV"] == 30.0 and m["DAQ"]["computer_id"] == "pc", "instrument")
    env.check(abs(m["FIB"]["pixel_size_um"] - fx["view"] * 1e3 / fx["nx"]) < 1e-9, "pixel size in the metadata")


def rows(fx, which, mz):
    """columns of the table for a signal, in order of mass"""
    r = [(m, i) for i, (lab, m, lo, hi) in enumerate(fx["table"]) if lab.startswith("nominal") == (which == "nominal_peak_data") and (mz is None or mz[0] <= m <= mz[1])]
    return sorted(r)


def peak_axis(env, s, sel):
    ax = s["axes"][3]
    env.check([float(x) for x in ax["axis"]] == [m for m, _ in sel] and ax["name"] == "m/z" and ax["units"] == "Da" and ax["navigate"] is False and ax["is_binned"], "masses of the peaks")


def by_name(out):
    names = {"(sum spectrum)": NAMES[0], "(nominal peak data)": NAMES[1], "(additional peak data)": NAMES[2], "(event list)": NAMES[3], "(FIB SE images)": NAMES[4]}
    return {next(v for k, v in names.items() if s["metadata"]["General"]["title"].endswith(k)): s for s in out}


def h_pre(env, table, lazy=False, dtype="float32", cast=None, nw=3):
    from rsciio.tofwerk import available_signals, file_reader

    fx = file(env, table, nw=nw, dtype=dtype)
    mz = env.choose("mz", MZ)
    depth = env.choose("depth", [None, (0, 1), (1, nw)])
    batch = env.choose("batch", [1, 2])
    kinds = [k for k in NAMES[1:3] if rows(fx, k, None)]
    env.check(available_signals(env.path("run_1.h5")) == ["sum_spectrum"] + kinds, "signals available")
    out = by_name(file_reader(env.path("run_1.h5"), signal=kinds, mz_range=mz, depth_range=depth, lazy=lazy, dtype=cast, show_progressbar=False, peak_data_batch_size=batch))
    a, b = depth or (0, nw)
    want = [k for k in kinds if rows(fx, k, mz)]
    env.check(list(out) == want, "exactly the signals with peaks")
    for k in want:
        s, sel = out[k], rows(fx, k, mz)
        env.check(hasattr(s["data"], "dask") == lazy, "dask arrays exactly when lazy")
        d = env.nd(s["data"])
        w = fx["data"][a:b][..., [i for _, i in sel]]
        if cast:
            w = w.astype(cast)
        env.check(env.same_array(d, w), "counts of each peak at its place")
        spatial(env, s, fx, b - a, fx["nx"], fx["ns"], True)
        peak_axis(env, s, sel)
        general(env, s, fx)
        env.check([p["label"] for p in s["metadata"]["Signal"]["peak_table"]] == [r[0] for r in fx["table"] if r[0].startswith("nominal") == (k == NAMES[1])], "peak table")
    env.cover("read")


def counted(events, mass, table, ratio):
    """number of events in each window"""
    n = [0] * len(table)
    for e in events:
        s = e // ratio
        if s < len(mass):
            hit = [i for i, r in enumerate(table) if r[2] <= mass[s] <= r[3]]
            if hit:
                n[max(hit, key=lambda i: table[i][2])] += 1
    return n


def some_events(ratio):
    def f(w, s, x):
        k = w * 7 + s * 3 + x
        return [((k * 5 + 3 * j) % 9) * ratio + (k + j) % ratio for j in range((k * 2) % 5)] * 2

    return f


def h_raw(env, table, ratio=1, numba=True, cast=None, waveforms=1):
    from rsciio.tofwerk import file_reader

    ev = some_events(ratio)
    fx = file(env, table, nw=2, peaks=False, events=ev, clock=8e-10 / ratio if ratio > 1 else None, waveforms=waveforms)
    mz = env.choose("mz", MZ)
    depth = env.choose("depth", [None, (0, 1), (1, 2)])
    kinds = [k for k in NAMES[1:3] if rows(fx, k, None)]
    with path_of(env, numba):
        out = by_name(file_reader(env.path("run_1.h5"), signal=kinds + ["event_list"], mz_range=mz, depth_range=depth, dtype=cast, show_progressbar=False))
    a, b = depth or (0, 2)
    want = [k for k in kinds if rows(fx, k, mz)]
    env.check(list(out) == want + ["event_list"], "exactly the signals with peaks")
    for k in want:
        s, sel = out[k], rows(fx, k, mz)
        spatial(env, s, fx, b - a, fx["nx"], fx["ns"], True)
        peak_axis(env, s, sel)
        d = env.nd(s["data"])
        env.check(d.dtype == (cast or "uint16") and d.shape == (b - a, fx["ns"], fx["nx"], len(sel)), "type and shape")
        tab = [fx["table"][i] for _, i in sel]
        for i in itertools.product(range(b - a), range(fx["ns"]), range(fx["nx"])):
            c = counted(ev(i[0] + a, *i[1:]), fx["mass"], tab, ratio)
            env.check([float(x) for x in d[i]] == [x / (2 * waveforms) if cast else x // (2 * waveforms) for x in c], "number of ions")
    s = out["event_list"]
    spatial(env, s, fx, b - a, fx["nx"], fx["ns"], True)
    for i in itertools.product(range(b - a), range(fx["ns"]), range(fx["nx"])):
        env.check(list(s["data"][i]) == ev(i[0] + a, *i[1:]), "events of the pixel")
    env.cover("read")


class path_of:
    """with numba (its kernel as python code), or without it"""

    def __init__(self, env, numba):
        self.env, self.numba = env, numba

    def __enter__(self):
        self.saved = sys.modules.get("numba", False)
        if not self.numba:
            sys.modules["numba"] = None
        elif self.env.symbolic:
            sys.modules["numba"] = types.ModuleType("numba")

    def __exit__(self, *a):
        if self.saved is False:
            sys.modules.pop("numba", None)
        else:
            sys.modules["numba"] = self.saved


def h_count(env, numba, table, counts, ratio, norm, dtype, order=None):
    """the counting of the events of a row, events symbolic"""
    from rsciio.tofwerk._reconstruction import compute_peak_data_from_eventlist

    mass = np.array([0.0, 0.75, 1.0, 1.5, 2.0, 3.0, 4.25, 5.0])
    axis = env.concrete_array(mass, "float64")
    tab = [TABLES[table][i] for i in order] if order else TABLES[table]
    tab = [r for r in tab if table != "mixed" or not r[0].startswith("nominal")]
    ev = [env.array(f"e{k}", (n,), "uint16") for k, n in enumerate(counts)]
    el = np.empty((1, 1, len(counts)), dtype=object)
    if env.symbolic:
        el = Events(ev)
    else:
        for k, e in enumerate(ev):
            el[0, 0, k] = e
    if env.symbolic:
        from rsciio.tofwerk import _reconstruction

        original = _reconstruction._peak_table_from_list
        # arrays which can be indexed by symbolic numbers
        _reconstruction._peak_table_from_list = lambda t: tuple(env.concrete_array(x, "float64") for x in original(t))
    with path_of(env, numba):
        r = compute_peak_data_from_eventlist(el, axis, len(mass), ratio, norm, [dict(label=a, mass=m, lower_integration_limit=lo, upper_integration_limit=hi) for a, m, lo, hi in tab], False, dtype)
    env.check(tuple(r.shape) == (1, 1, len(counts), len(tab)) and np.dtype(r.dtype) == np.dtype(dtype), "shape and type")
    # samples which fall into each window
    samples = [[s for s in range(len(mass)) if counted([s], mass, tab, 1)[i]] for i in range(len(tab))]
    for k, e in enumerate(ev):
        for i in range(len(tab)):
            n = 0
            for v in e:
                n = n + env.ite(env.any([env.all([v >= s * ratio, v < (s + 1) * ratio]) for s in samples[i]]), 1, 0)
            got = r[0, 0, k, i]
            # the quotient, cut to an integer for integer types
            env.check(env.all([(got == j // norm if np.dtype(dtype).kind in "ui" else got == np.float32(j) / np.float32(norm)) if not env.is_sym(n) else env.any([n != j, got == (j // norm if np.dtype(dtype).kind in "ui" else float(np.float32(j) / np.float32(norm)))]) for j in range(len(counts) and counts[k] + 1) if env.is_sym(n) or n == j]), "ions in the window")
    env.cover("read")


class Events:
    """ragged array (depth, y, x) of symbolic events"""

    def __init__(self, rows):
        self.rows, self.shape = rows, (1, 1, len(rows))

    def __getitem__(self, w):
        return [self.rows]


def h_sum(env, p2, lazy=False, raw=False):
    """sum spectrum, over the part of the mass axis which ascends"""
    from rsciio.tofwerk import file_reader

    n = 6
    p2 = env.choose("p2", p2)
    mass = [float(np.float32(((i - p2) / 2.0) ** 2)) if i >= p2 or p2 < 50 else -1.0 for i in range(n)]
    mass = [-m if env_sign and i < p2 else m for i, m in enumerate(mass) for env_sign in (raw,)]
    fx = file(env, "nominal", nw=1, ns=1, nx=1, mass=tuple(mass), peaks=not raw, events=(lambda *a: []) if raw else None)
    s = file_reader(env.path("run_1.h5"), lazy=lazy, show_progressbar=False)
    env.check(len(s) == 1, "one signal")
    s = s[0]
    ax = [float(x) for x in s["axes"][0]["axis"]]
    k = n - len(ax)
    env.check(all(a < b for a, b in zip(ax, ax[1:])) and len(ax) >= 1, "masses ascend")
    env.check(ax == mass[k:] and ax[0] >= 0, "masses of the file")
    env.check(k == 0 or mass[k - 1] >= mass[k] or mass[k - 1] < 0, "no more than needed is left out")
    env.check(env.same_array(env.nd(s["data"]), fx["sum"][k:]), "every value of the spectrum")
    general(env, s, fx)
    env.cover("read")


def h_images(env, shapes, lazy=False):
    from rsciio.tofwerk import file_reader

    fx = file(env, "nominal", nw=len(shapes), images=shapes)
    depth = env.choose("depth", [None, (0, 2), (1, len(shapes))])
    s = file_reader(env.path("run_1.h5"), signal="fib_images", lazy=lazy, depth_range=depth, show_progressbar=False)[0]
    best = max(set(shapes), key=lambda x: (shapes.count(x), x))
    a, b = depth or (0, len(shapes))
    want = [im for im in fx["images"] if tuple(im.shape) == best][a:b]
    d = env.nd(s["data"])
    spatial(env, s, fx, len(want), best[1], best[0], False)
    env.check(d.shape[0] == len(want), "number of images")
    for k, w in enumerate(want):
        env.check(env.same_array(d[k], w), "every image in order")
    env.cover("read")


def h_all(env, lazy, raw, images=((2, 2), (2, 2))):
    from rsciio.tofwerk import available_signals, file_reader

    ev = some_events(1)
    fx = file(env, "mixed", nw=2, peaks=not raw, events=ev, images=images)
    names = available_signals(env.path("run_1.h5"))
    env.check(names == NAMES[:5] if images else NAMES[:4], "signals available")
    for sig in ("all", ["fib_images", "sum_spectrum"], "event_list"):
        want = names if sig == "all" else [n for n in NAMES if n in sig]
        out = by_name(file_reader(env.path("run_1.h5"), signal=sig, lazy=lazy, show_progressbar=False))
        env.check(list(out) == want, "the signals asked for")
        for s in out.values():
            general(env, s, fx)
        if "event_list" in out:
            d = out["event_list"]["data"]
            d = d.compute() if lazy else d
            for i in itertools.product(range(2), range(2), range(3)):
                env.check(list(d[i]) == ev(*i), "events of the pixel")
    env.cover("read")


def harnesses(tier):
    hs = []

    def add(name, fn, p, budget=60, bounds="up to 3 x 2 x 3 pixels, 5 peaks, 8 samples"):
        hs.append(H(name, fn, p, budget=budget, functions=F, bounds=bounds, covers=["read"]))

    for t in TABLES:
        for lazy in (False, True):
            add(f"peaks {t} lazy={lazy}", h_pre, dict(table=t, lazy=lazy))
        add(f"raw {t}", h_raw, dict(table=t))
        add(f"raw {t} without numba", h_raw, dict(table=t, numba=False, ratio=4))
    add("peaks cast", h_pre, dict(table="mixed", cast="float64"))
    add("peaks cast lazy", h_pre, dict(table="mixed", cast="uint32", dtype="uint16", lazy=True))
    add("raw waveforms", h_raw, dict(table="mixed", ratio=3, waveforms=2))
    add("raw float", h_raw, dict(table="mixed", cast="float32", numba=False, waveforms=4))
    for numba in (True, False):
        z = "" if numba else " without numba"
        add("count nominal" + z, h_count, dict(numba=numba, table="nominal", counts=[2, 0, 1], ratio=1, norm=1, dtype="float32" if numba else "uint16"))
        add("count ratio" + z, h_count, dict(numba=numba, table="nominal", counts=[1, 2], ratio=64, norm=2, dtype="float32"))
        add("count unsorted" + z, h_count, dict(numba=numba, table="custom", counts=[2], ratio=3, norm=1, dtype="float64" if numba else "uint32"))
        add("count mixed" + z, h_count, dict(numba=numba, table="mixed", counts=[2], ratio=2, norm=2, dtype="float32" if numba else "uint16", order=[4, 0, 2]))
    add("sum", h_sum, dict(p2=[-1.0, 0.0, 1.5, 2.0, 4.0]))
    add("sum raw", h_sum, dict(p2=[-1.0, 0.5, 2.0, 4.5], raw=True))
    add("sum lazy", h_sum, dict(p2=[0.0, 2.0, 3.0], lazy=True))
    for lazy in (False, True):
        add(f"images lazy={lazy}", h_images, dict(shapes=[(2, 3), (2, 3), (2, 3)], lazy=lazy))
        add(f"images truncated lazy={lazy}", h_images, dict(shapes=[(2, 2), (3, 2), (3, 2), (1, 2)], lazy=lazy))
        add(f"all lazy={lazy}", h_all, dict(lazy=lazy, raw=False))
    add("all raw", h_all, dict(lazy=False, raw=True))
    return hs
