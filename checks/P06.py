"""Chunked lazy reading of memory-mapped files (utils/_distributed)."""
from symex import H
from symex.hlib import *

ASSUMPTIONS = [
    "dask is trusted to call each block function once and to place each block where its chunk says",
    "np.memmap is modelled as a view of the file's bytes from the offset; the operating system's mapping on replay",
]


def partitions(n):
    if n == 0:
        return [()]
    return [(k,) + r for k in range(1, n + 1) for r in partitions(n - k)]


def plain(env, shape, dtype, axis_=None, chunks=None, offset=0, order="C", key=None, sub=(), deliver="shape", extra=0):
    from rsciio.utils._distributed import memmap_distributed

    dt = np.dtype(dtype)
    if axis_ is not None:  # every partition of one axis
        full = shape + sub
        chunks = tuple(env.choose("part", partitions(s)) if i == axis_ else ((s,) if chunks is None else env.choose("p%d" % i, chunks)) for i, s in enumerate(full))
    off = env.choose("offset", [0, 1, 7, 16, 513]) if offset == "any" else offset
    if key is None:
        rec = dt
        fdt = dt
    else:
        fdt = np.dtype([("head", "<u4"), (key, dt, sub), ("tail", "u1", (3,))])
        rec = fdt
    n = prod(shape)
    cells = [170] * off
    ref = []
    for i in range(n):
        if key is None:
            b = env.bytes("b", dt.itemsize)
            cells += b
            ref += b
        else:
            b = env.bytes("b", dt.itemsize * prod(sub))
            cells += env.bytes("h", 4) + b + env.bytes("t", 3)
            ref += b
    cells += [85] * extra
    want = env.from_cells(ref, dt, shape + sub)
    if order == "F":
        want = env.from_cells(ref, dt, shape[::-1]).T
    kw = {}
    if deliver == "shape":
        kw["shape"] = shape
    r = memmap_distributed(env.file("a.bin", cells), dtype=rec, offset=off, order=order, chunks=chunks if chunks is not None else "auto", key=key, **kw)
    env.check(tuple(r.shape) == tuple(shape + sub), "the shape is the one asked for")
    if chunks is not None and axis_ is not None:
        env.check(tuple(r.chunks) == tuple(chunks), "the chunks are the ones asked for")
    d = env.nd(r)
    env.check(tuple(d.shape) == tuple(shape + sub), "the computed shape is the declared one")
    env.check(env.same_array(d, want), "each element is the file's at that index")
    env.cover("read")


def positions(env, shape, npos, chunks, dtype, full=False, offset=0):
    """a list of scan positions: position of frame i shows frame i, the last one winning, others zero"""
    from rsciio.utils._distributed import memmap_distributed

    dt = np.dtype(dtype)
    nav, sig = shape[:-2], shape[-2:]
    if full:
        perm = env.choose("perm", list(itertools.permutations(range(prod(nav)))) if prod(nav) <= 4 else [tuple(reversed(range(prod(nav)))), tuple(range(prod(nav)))[1:] + (0,)])
        pos = [tuple(int(v) for v in np.unravel_index(p, nav)) for p in perm]
        npos = len(pos)
    else:
        pos = [tuple(env.int("p%d_%d" % (i, j), 0, n - 1) for j, n in enumerate(nav)) for i in range(npos)]
    frames = [env.bytes("f", prod(sig) * dt.itemsize) for _ in range(npos)]
    cells = [9] * offset
    for f in frames:
        cells += f
    r = memmap_distributed(env.file("a.bin", cells), dtype=dt, shape=shape, offset=offset, positions=np.array([[int(v) for v in p] for p in pos]), chunks=chunks)
    d = env.nd(r)
    env.check(tuple(d.shape) == tuple(shape), "the shape is the one asked for")
    vals = [env.elems(f, dt) for f in frames]
    ok = []
    for at in np.ndindex(*nav):
        got = list(d[at].ravel())
        hit = [i for i, p in enumerate(pos) if tuple(int(v) for v in p) == at]
        for k, g in enumerate(got):
            ok.append(g == (vals[hit[-1]][k] if hit else 0))
    env.check(env.all(*ok), "each position shows its frame, positions without one are zero")
    env.cover("read")


def slices(env, shape):
    """the chunk slices of any regular chunk size cover the shape once"""
    from rsciio.utils._distributed import get_chunk_slice

    ch = tuple(env.int("c%d" % i, 1, s) for i, s in enumerate(shape))
    sl, chunks = get_chunk_slice(shape, chunks=tuple(int(c) for c in ch), dtype=np.dtype("u1"))
    a = np.asarray(sl.compute(scheduler="synchronous")).astype(int)
    seen = np.zeros(shape, int)
    for ind in np.ndindex(*a.shape[:-2]):
        seen[tuple(slice(x, y) for x, y in a[ind])] += 1
        env.check(tuple(y - x for x, y in a[ind]) == tuple(chunks[k][i] for k, i in enumerate(ind)), "slice and chunk sizes agree")
    env.check(bool((seen == 1).all()), "the slices cover each element once")
    env.cover("read")


def compositions(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield (k,) + r


def flat(env, shape, dtype, order, off, given):
    """any division of every dimension"""
    from rsciio.utils.file import memmap_distributed

    d = env.array("d", shape, dtype)
    # order: position of the elements in the file
    mem = env.nd(d).T if order == "F" else env.nd(d)
    env.file("raw", [7] * off + list(env.cells(mem)))
    ch = tuple(env.choose("chunks%d" % i, list(compositions(n))) for i, n in enumerate(shape))
    kw = dict(shape=shape) if given else {}
    r = memmap_distributed(env.path("raw"), np.dtype(dtype), offset=off, order=order, chunks=ch, **kw)
    env.check(tuple(r.chunks) == ch and tuple(r.shape) == shape, "shape and chunks as asked for")
    env.check(np.dtype(r.dtype) == np.dtype(dtype), "data type as asked for")
    env.check(env.same_array(env.nd(r), d, dtype=False), "every element once, in its place")
    # a part of the data
    k = env.choose("part", range(shape[0]))
    env.check(env.same_array(env.nd(r[k]), env.nd(d)[k], dtype=False), "a part read alone equals the part of the whole")
    env.cover("read")


def auto(env, shape, dtype, limit, off):
    from rsciio.utils.file import memmap_distributed

    d = env.array("d", shape, dtype)
    env.file("raw", [7] * off + list(env.cells(d)))
    r = memmap_distributed(env.path("raw"), np.dtype(dtype), offset=off, shape=shape, block_size_limit=limit)
    env.check(env.same_array(env.nd(r), d, dtype=False), "every element once, in its place")
    env.check(all(prod(b) * np.dtype(dtype).itemsize <= max(limit, np.dtype(dtype).itemsize) for b in itertools.product(*r.chunks)), "chunks no larger than the limit")
    env.cover("read")


def struct(env, shape, key, off, given):
    """one field of records"""
    from rsciio.utils.file import memmap_distributed

    dt = np.dtype([("a", "<u2"), ("data", ">i2", (2, 3)), ("b", "u1", (2,))])
    n = prod(shape)
    a, data, b = env.array("a", (n,), "<u2"), env.array("data", (n, 2, 3), ">i2"), env.array("b", (n, 2), "u1")
    c = []
    for i in range(n):
        for x in (a, data, b):
            c += list(env.cells(env.nd(x)[i : i + 1]))
    env.file("raw", [7] * off + c)
    sub = dt[key].shape
    ch = tuple(env.choose("chunks%d" % i, list(compositions(m))) for i, m in enumerate(shape + sub))
    r = memmap_distributed(env.path("raw"), dt, offset=off, key=key, chunks=ch, **(dict(shape=shape) if given else {}))
    want = env.nd(dict(a=a, data=data, b=b)[key]).reshape(shape + sub)
    env.check(tuple(r.shape) == shape + sub and np.dtype(r.dtype) == dt[key].base, "shape and type of the field")
    env.check(env.same_array(env.nd(r), want, dtype=False), "every element of the field once, in its place")
    env.cover("read")


def scattered(env, grid, n, rep):
    """frames at listed positions"""
    from rsciio.utils.file import memmap_distributed

    pts = list(np.ndindex(*grid))
    pos = env.choose("order", list(itertools.permutations(pts, n)))
    d = env.array("d", (n, 2, 2), "<u2")
    env.file("raw", env.cells(d))
    ch = tuple(env.choose("chunks%d" % i, list(compositions(m))) for i, m in enumerate(grid)) + (-1, -1)
    r = memmap_distributed(env.path("raw"), np.dtype("<u2"), shape=grid + (2, 2), positions=[list(p) for p in pos] if rep else np.array(pos), chunks=ch)
    r = env.nd(r)
    d = env.nd(d)
    ok = [env.same_array(r[p], d[pos.index(p)] if p in pos else np.zeros((2, 2), "u2"), dtype=False) for p in pts]
    env.check(env.all(*ok), "each frame where it belongs, zeros elsewhere")
    env.cover("read")


def harnesses(tier):
    fn = ["utils._distributed.memmap_distributed", "slice_memmap", "get_chunk_slice", "get_arbitrary_chunk_slice"]
    hs = []
    add = lambda name, f, p: hs.append(H(name, f, p, 120, fn, "all file bytes symbolic; shape in the name", ["read"]))
    T = tier == "thorough"
    for shape in [(4,), (3, 4), (4, 2, 3), (2, 3, 2, 2)] + ([(6,), (5, 2), (2, 5, 2, 1)] if T else []):
        for ax in range(len(shape)):
            add(f"partitions {shape} axis {ax}", plain, dict(shape=shape, dtype=["<u2", "u1", ">f4", "<i4"][ax], axis_=ax))
    for dt in ("u1", "<u2", ">u2", "<f4", ">f8", "<c8", "i1"):
        add(f"offset {dt}", plain, dict(shape=(2, 3), dtype=dt, offset="any", extra=0))
        add(f"offset no shape {dt}", plain, dict(shape=(5,), dtype=dt, offset="any", deliver="none"))
        add(f"trailing bytes {dt}", plain, dict(shape=(3, 2), dtype=dt, offset=3, extra=5, chunks=(2, 1)))
    for shape in ((3,), (2, 3), (1, 2)):
        for sub in ((2,), (2, 2), (1, 3)):
            add(f"structured {shape} {sub}", plain, dict(shape=shape, dtype=">u2", key="data", sub=sub, axis_=0, offset=5))
            add(f"structured no shape {shape} {sub}", plain, dict(shape=(prod(shape),), dtype="<f4", key="data", sub=sub, deliver="none"))
    for shape in ((2, 3), (3, 2, 2)):
        add(f"fortran {shape}", plain, dict(shape=shape, dtype="<u2", order="F", axis_=0))
    for ch in ("auto", 1, 2, (1, -1)):
        add(f"chunk form {ch}", plain, dict(shape=(3, 4), dtype="<u2", chunks=ch))
    for shape in ((2, 2, 2, 2), (3, 2, 1, 2), (1, 3, 2, 1), (3, 1, 2, 2), (4, 2, 1), (1, 1, 2, 2), (1, 2, 1)):
        nav = shape[:-2]
        for ch in ("auto", tuple(1 for _ in nav) + (-1, -1), (nav[0],) + tuple(1 for _ in nav[1:]) + (-1, -1)):
            for k in (1, 2, 3):
                add(f"positions {shape} {ch} {k}", positions, dict(shape=shape, npos=k, chunks=ch, dtype="<u2"))
            add(f"positions full {shape} {ch}", positions, dict(shape=shape, npos=0, chunks=ch, dtype="u1", full=True, offset=4))
    for shape in ((5,), (3, 4), (4, 3, 2)):
        add(f"slices {shape}", slices, dict(shape=shape))
    f = fn
    for shape in ((6,), (1,), (4, 3), (3, 2, 2), (2, 2, 2, 2), (1, 3, 1)) + ((8,), (5, 4), (4, 3, 2), (3, 2, 2, 2)) * T:
        for dt in ("<u2", ">f4") if len(shape) > 1 else ("u1", ">i4", "<f8", "<c8"):
            for order in "CF":
                hs.append(H(f"flat {shape} {dt} {order}", flat, dict(shape=shape, dtype=dt, order=order, off=5 * (dt[0] == "<"), given=True), 600, f, "every division into chunks; symbolic elements", ["read"]))
    hs.append(H("flat shape from the file", flat, dict(shape=(5,), dtype="<u2", order="C", off=6, given=False), 300, f, "every division into chunks; symbolic elements", ["read"]))
    for shape in ((7,), (5, 4), (3, 4, 2), (2, 2, 3, 2)):
        for limit in (1, 2, 5, 8, 16, 1000):
            hs.append(H(f"auto {shape} {limit}", auto, dict(shape=shape, dtype="<u2", limit=limit, off=3), 300, f, "symbolic elements", ["read"]))
    for shape in ((2,), (3,), (2, 2)):
        for key in ("a", "data", "b"):
            hs.append(H(f"field {shape} {key}", struct, dict(shape=shape, key=key, off=4, given=True), 600, f, "every division into chunks; symbolic elements", ["read"]))
    hs.append(H("field shape from the file", struct, dict(shape=(3,), key="data", off=4, given=False), 300, f, "every division into chunks; symbolic elements", ["read"]))
    for grid, n in (((2, 2), 4), ((2, 2), 2), ((3, 1), 2), ((4,), 3)) + (((2, 1, 2), 3), ((3, 2), 3)) * T:
        for rep in (False, True):
            hs.append(H(f"scattered {grid} {n} {rep}", scattered, dict(grid=grid, n=n, rep=rep), 600, ["get_arbitrary_chunk_slice", "slice_memmap"], "every order of positions, every division into chunks; symbolic pixels", ["read"]))
    return hs
