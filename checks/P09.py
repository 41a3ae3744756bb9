"""HyperSpy zarr (.zspy) files."""
from symex import H
from symex.hlib import *
from checks import P08

ZARR = True
ASSUMPTIONS = [
    "zarr is trusted for storage, types and names: the real zarr runs on a scratch store, symbolic contents are kept beside it; the plain zarr on replay",
    P08.ASSUMPTIONS[1],
    "lists that mix only numbers and text come back as text (the repository's tests require it)",
    "complex numbers and binary text in the metadata are not supported by zarr attributes (left out with an error message)",
]


def store(env, shape, nav, store_type, lazy, close):
    """zip archives, explicit stores"""
    from rsciio.zspy import file_reader, file_writer
    import zarr

    sg = P08.sig(env, env.array("d", shape, "uint16"), nav, om={"a": [env.int("i", 0, 9), None], "b": env.float("f")})
    fn = env.path("a.zspy")
    if store_type == "zip object":
        st = zarr.storage.ZipStore(fn)
        file_writer(st, sg, show_progressbar=False, close_file=close)
        if not close:
            st.close()
    elif store_type == "memory":
        st = zarr.storage.MemoryStore()
        file_writer(st, sg, show_progressbar=False)
        fn = st
    elif store_type == "dict":
        st = {}
        st = zarr.storage.KVStore(st)
        file_writer(st, sg, show_progressbar=False)
        fn = st
    else:
        file_writer(fn, sg, show_progressbar=False, store_type=store_type, close_file=close)
    s = file_reader(fn, lazy=lazy)
    env.check(len(s) == 1, "one signal")
    env.check(env.same_array(env.nd(s[0]["data"]), sg["data"]), "every value survives")
    P08.check_signal(env, s[0], sg, lazy)
    env.cover("read back")


def rewrite(env, shapes, dtypes):
    """writing over an existing file leaves nothing of the previous content"""
    from rsciio.zspy import file_reader, file_writer

    fn = env.path("a.zspy")
    for i, (sh, dt) in enumerate(zip(shapes, dtypes)):
        sg = P08.sig(env, env.array("d", sh, dt), (False,) * len(sh), om={"k%d" % i: env.int("i%d" % i, 0, 9), "l": [{"a": None}] * (i + 1)}, title="t%d" % i)
        file_writer(fn, sg, show_progressbar=False)
    s = file_reader(fn)
    env.check(len(s) == 1, "one signal")
    env.check(env.same_array(s[0]["data"], sg["data"]), "every value survives")
    P08.check_signal(env, s[0], sg, False)
    env.cover("read back")


def harnesses(tier):
    hs = P08.build("zspy", tier)
    fn = ["zspy.file_writer", "zspy.file_reader"]
    for st in ("local", "zip", "zip object", "memory", "dict"):
        for lazy in (False, True):
            for close in (True, False) if st in ("zip object",) else (True,):
                hs.append(H(f"store {st} {lazy} {close}", store, dict(shape=(2, 3), nav=(True, False), store_type=st, lazy=lazy, close=close), 120, fn, "symbolic data and leaves", ["read back"]))
    hs.append(H("rewrite", rewrite, dict(shapes=[(2, 3), (4,), (2, 2, 2)], dtypes=["uint16", "float32", "uint8"]), 120, fn, "three writes over one file", ["read back"]))
    return hs
