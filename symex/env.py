"""Harness environments: symbolic (solver decides) and concrete (replay)."""

import builtins
import math as _math
import mmap as _mmap
import io as _io
import os
import shutil
import struct as _struct
import sys
import tempfile
import time
import traceback
import types
import zipfile
import zlib as _zlib

import numpy as _np

SCRATCH = None
REPO = os.environ.get("SYMEX_REPO", "/repo")


def in_repo(f):
    return "/rsciio/" in f or f.startswith(REPO + "/")



class Refuted(AssertionError):
    pass


class Skip(Exception):
    """concrete run left the assumed input region"""


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="symex-")
    return SCRATCH


# ------------------------------------------------------------------ concrete
class ConcreteEnv:
    symbolic = False

    def __init__(self, values, rng=None):
        self.v = values
        self.rng = rng
        self.used = {}
        self.failures = []
        self.covers = set()
        self.notes = []
        self.dir = tempfile.mkdtemp(prefix="run-", dir=scratch())
        self.counter = {}

    def _fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def _val(self, name, lo, hi):
        if name in self.v:
            x = int(self.v[name])
        elif self.rng is not None:
            x = self.rng.randint(lo, hi)
        else:
            x = lo if lo > 0 else min(max(0, lo), hi)
        self.used[name] = x
        return x

    def int(self, name, lo, hi):
        return self._val(self._fresh(name), lo, hi)

    def bool(self, name):
        return bool(self._val(self._fresh(name), 0, 1))

    def choose(self, name, options):
        options = list(options)
        return options[self._val(self._fresh(name), 0, len(options) - 1)]

    def bytes(self, name, n):
        return [self._val(self._fresh(f"{name}[{i}]"), 0, 255) for i in range(n)]

    def float(self, name, fmt="d", finite=True):
        n = {"d": 8, "f": 4, "e": 2}[fmt]
        name = self._fresh(name)
        if name not in self.v and self.rng is not None:
            x = self.rng.uniform(-1000, 1000)
            b = int.from_bytes(_struct.pack("<" + fmt, x), "little")
            self.used[name] = b
        else:
            b = self._val(name, 0, 2 ** (8 * n) - 1)
        return _struct.unpack("<" + fmt, int(b).to_bytes(n, "little"))[0]

    def array(self, name, shape, dtype, lo=None, hi=None):
        dt = _np.dtype(dtype)
        name = self._fresh(name)
        n = 1
        for s in shape:
            n *= s
        out = b""
        for i in range(n):
            nm = f"{name}[{i}]"
            if dt.kind in "iub":
                l, h = _range(dt)
                l = l if lo is None else lo
                h = h if hi is None else hi
                out += _np.array(self._val(nm, l, h)).astype(dt).tobytes()
            elif dt.kind in "fc":
                k = dt.itemsize if dt.kind == "f" else dt.itemsize // 2
                for part in range(1 if dt.kind == "f" else 2):
                    nn = nm + (".i" if part else "")
                    b = self._val(nn, 0, 2 ** (8 * k) - 1)
                    s = int(b).to_bytes(k, "little" if _isle(dt) else "big")
                    out += s
            else:
                raise TypeError(dt)
        return _np.frombuffer(out, dtype=dt).reshape(shape).copy()

    def concrete_array(self, values, dtype):
        return _np.array(values, dtype=dtype)

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def check(self, c, msg):
        if not bool(c):
            self.failures.append(msg)
            raise Refuted(msg)

    def cover(self, label):
        self.covers.add(label)

    def path(self, name):
        return os.path.join(self.dir, name)

    def file(self, name, cells):
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(bytes(cells))
        return p

    def read_file(self, p):
        with open(p, "rb") as f:
            return list(f.read())

    def fileobj(self, cells, name=None):
        return _io.BytesIO(bytes(cells))

    def tobytes(self, cells):
        return bytes(cells)

    def pack(self, fmt, *a):
        return list(_struct.pack(fmt, *a))

    def unpack(self, fmt, cells):
        return _struct.unpack(fmt, bytes(cells))

    def elems(self, cells, dtype):
        """list of elements decoded from cells"""
        return list(_np.frombuffer(bytes(cells), dtype=dtype).tolist())

    def float_elems(self, cells, dtype):
        return list(_np.frombuffer(bytes(cells), dtype=dtype))

    def from_cells(self, cells, dtype, shape=None):
        a = _np.frombuffer(bytes(cells), dtype=dtype).copy()
        return a if shape is None else a.reshape(shape)

    def cells(self, x):
        """bytes of an array / bytes object, C order"""
        if isinstance(x, (bytes, bytearray)):
            return list(x)
        return list(_np.ascontiguousarray(x).tobytes())

    def compress(self, cells):
        return list(_zlib.compress(bytes(cells)))

    # boolean algebra
    def all(self, *xs):
        return all(bool(x) for x in xs)

    def any(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not bool(x)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def same(self, a, b):
        if isinstance(a, _np.ndarray) and a.ndim == 0:
            a = a[()]
        if isinstance(b, _np.ndarray) and b.ndim == 0:
            b = b[()]
        try:
            if a != a and b != b:
                return True
        except Exception:
            pass
        r = a == b
        return bool(r)

    def same_array(self, a, b, dtype=True):
        a = _np.asarray(a)
        b = _np.asarray(b)
        if a.shape != b.shape:
            return False
        if dtype and a.dtype.newbyteorder("=") != b.dtype.newbyteorder("="):
            return False
        if a.dtype.names:
            return all(self.same_array(a[n], b[n], dtype) for n in a.dtype.names)
        if a.dtype.kind in "fc" and a.dtype.itemsize == b.dtype.itemsize and b.dtype.kind == a.dtype.kind:
            x, y = a.astype(a.dtype.newbyteorder("<")), b.astype(b.dtype.newbyteorder("<"))
            return x.tobytes() == y.tobytes() or bool(_np.array_equal(x, y, equal_nan=True))
        return bool(_np.array_equal(a, b))

    def number(self, text):
        """float written as text"""
        return float(text)

    def is_sym(self, x):
        return False

    def nd(self, x):
        """the array with dask laziness removed"""
        if hasattr(x, "compute") and not isinstance(x, _np.ndarray):
            x = x.compute(scheduler="synchronous")
        return x

    def attempt(self, fn, *a, **k):
        """(result, exception) of the call"""
        try:
            return fn(*a, **k), None
        except (Refuted, Skip):
            raise
        except Exception as e:
            return None, e

    def numpy(self):
        return _np

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def _range(dt):
    n = dt.itemsize * 8
    if dt.kind == "b":
        return 0, 1
    if dt.kind == "u":
        return 0, (1 << n) - 1
    return -(1 << (n - 1)), (1 << (n - 1)) - 1


def _isle(dt):
    return dt.byteorder != ">"


# ------------------------------------------------------------------ symbolic
def make_symbolic_env():
    import z3

    from . import arr as A
    from . import core as C
    from . import sbytes as S

    CTX = C.CTX

    class SymbolicEnv:
        symbolic = True

        def __init__(self, result):
            self.r = result
            self.vars = {}
            self.dir = os.path.join(scratch(), "sym")
            shutil.rmtree(self.dir, ignore_errors=True)
            os.makedirs(self.dir)
            A.VFS_.files.clear()
            A.VFS_.maps.clear()
            from . import h5

            h5.reset()
            self.checks = 0

        def _var(self, name, lo, hi):
            w = C.width_for(lo, hi)
            t = z3.BitVec(name, w)
            self.vars[name] = (t, "int")
            if not (lo == -(1 << (w - 1)) and hi == (1 << (w - 1)) - 1):
                CTX.add(z3.And(t >= lo, t <= hi))
            if lo == hi:
                return lo
            return C.SymInt(t, lo, hi)

        def int(self, name, lo, hi):
            return self._var(CTX.fresh(name), lo, hi)

        def compress(self, cells):
            return stored_stream(cells)

        def bool(self, name):
            v = self._var(CTX.fresh(name), 0, 1)
            return v == 1

        def choose(self, name, options):
            options = list(options)
            if len(options) == 1:
                CTX.fresh(name)
                return options[0]
            return options[CTX.concretize(self._var(CTX.fresh(name), 0, len(options) - 1))]

        def _bits(self, name, n):
            t = z3.BitVec(name, n)
            self.vars[name] = (t, "bits")
            return t

        def bytes(self, name, n):
            out = []
            for i in range(n):
                t = self._bits(CTX.fresh(f"{name}[{i}]"), 8)
                out.append(C.SymInt(z3.ZeroExt(1, t), 0, 255))
            return out

        def float(self, name, fmt="d", finite=True):
            n = {"d": 8, "f": 4, "e": 2}[fmt]
            b = C.SymBits(self._bits(CTX.fresh(name), 8 * n), fmt)
            if finite:
                e, m = {"d": (11, 52), "f": (8, 23), "e": (5, 10)}[fmt]
                CTX.add(z3.Extract(e + m - 1, m, b.bits) != z3.BitVecVal((1 << e) - 1, e))
            return b

        def array(self, name, shape, dtype, lo=None, hi=None):
            dt = _np.dtype(dtype)
            name = CTX.fresh(name)
            n = 1
            for s in shape:
                n *= s
            o = _np.empty((n,), dtype=object)
            for i in range(n):
                nm = f"{name}[{i}]"
                if dt.kind in "iu":
                    l, h = _range(dt)
                    if lo is not None or hi is not None:
                        o[i] = self._var(nm, l if lo is None else lo, h if hi is None else hi)
                    else:
                        t = self._bits(nm, 8 * dt.itemsize)
                        if dt.kind == "u":
                            t = z3.ZeroExt(1, t)
                        else:
                            self.vars[nm] = (t, "int")
                        o[i] = C.SymInt(t, l, h)
                elif dt.kind == "b":
                    o[i] = C.mkbool(self._bits(nm, 1) == 1)
                elif dt.kind == "f":
                    o[i] = C.SymBits(self._bits(nm, 8 * dt.itemsize), S.FLT[dt.itemsize][0])
                elif dt.kind == "c":
                    h = dt.itemsize // 2
                    f = S.FLT[h][0]
                    o[i] = C.SymComplex(
                        C.SymBits(self._bits(nm, 8 * h), f),
                        C.SymBits(self._bits(nm + ".i", 8 * h), f),
                    )
                else:
                    raise TypeError(dt)
            return A.mk(o.reshape(shape), dt)

        def concrete_array(self, values, dtype):
            a = _np.array(values, dtype=dtype)
            o = _np.empty(a.shape, dtype=object)
            for i in _np.ndindex(*a.shape):
                o[i] = a[i].item()
            return A.mk(o, a.dtype)

        def assume(self, c):
            if isinstance(c, C.SymBool):
                CTX.add(c.b)
                if CTX.model is None:
                    r = CTX.check()
                    if r == z3.unsat:
                        raise C.PathEnd("assumption")
                    if r == z3.sat:
                        CTX.model = CTX.last.model()
            elif not bool(c):
                raise C.PathEnd("assumption")

        def check(self, c, msg):
            self.checks += 1
            self.r["obligations"] += 1
            self.r["check_sites"][msg] = self.r["check_sites"].get(msg, 0) + 1
            if isinstance(c, C.SymBool):
                neg = z3.Not(c.b)
                t0 = CTX.unknown
                r = CTX.check(neg)
                if r == z3.unsat:
                    self.r["discharged"] += 1
                    return
                if r == z3.unknown:
                    self.r["undecided"].append(msg)
                    return
                m = CTX.last.model()
                self.candidate(msg, m)
                CTX.add(c.b)
                CTX.model = None
                if CTX.check() != z3.sat:
                    raise C.PathEnd("refuted everywhere")
                CTX.model = CTX.last.model()
            elif not bool(c):
                self.candidate(msg, None)
                raise C.PathEnd("refuted")
            else:
                self.r["discharged"] += 1

        def model(self):
            if CTX.model is None:
                r = CTX.check()
                if r != z3.sat:
                    return None
                CTX.model = CTX.last.model()
            return CTX.model

        def values(self, m):
            out = {}
            for n, (t, kind) in self.vars.items():
                v = m.eval(t, model_completion=True)
                out[n] = v.as_signed_long() if kind == "int" else v.as_long()
            return out

        def candidate(self, msg, m):
            if m is None:
                m = self.model()
            if m is None:
                return
            c = self.r["candidates"]
            if sum(1 for x in c if x["msg"] == msg) < 3:
                c.append({"msg": msg, "values": self.values(m)})

        def cover(self, label):
            self.r["covers"][label] = self.r["covers"].get(label, 0) + 1

        def path(self, name):
            return os.path.join(self.dir, name)

        def file(self, name, cells):
            p = self.path(name)
            cells = S.cells_of(cells) if not isinstance(cells, list) else cells
            A.VFS_.put(p, cells)
            return p

        def read_file(self, p):
            if A.VFS_.has(p):
                return list(A.VFS_.get(p))
            with builtins.open(p, "rb") as f:
                return list(f.read())

        def fileobj(self, cells, name=None):
            return S.SymFile(list(cells), name)

        def tobytes(self, cells):
            return S.mkbytes(cells)

        def pack(self, fmt, *a):
            return S.cells_of(S.StructShim.pack(fmt, *a))

        def unpack(self, fmt, cells):
            return S.StructShim.unpack(fmt, S.mkbytes(cells))

        def elems(self, cells, dtype):
            return list(A.raw(A.from_cells(list(cells), _np.dtype(dtype))))

        float_elems = elems

        def from_cells(self, cells, dtype, shape=None):
            a = A.from_cells(list(cells), _np.dtype(dtype))
            return a if shape is None else a.reshape(shape)

        def cells(self, x):
            if isinstance(x, _np.ndarray) and not isinstance(x, A.SymArray):
                return list(_np.ascontiguousarray(x).tobytes())
            return S.cells_of(x)

        def all(self, *xs):
            return C.s_and(*[x if isinstance(x, C.SymBool) else bool(x) for x in xs])

        def any(self, *xs):
            return C.s_or(*[x if isinstance(x, C.SymBool) else bool(x) for x in xs])

        def not_(self, x):
            return C.s_not(x)

        def ite(self, c, a, b):
            return C.ite(c, a, b)

        def same(self, a, b):
            if isinstance(a, A.SymArray) and a.size == 1:
                a = A.raw(a).ravel()[0]
            if isinstance(b, A.SymArray) and b.size == 1:
                b = A.raw(b).ravel()[0]
            if isinstance(a, str) and a in CTX.tokens:
                a = CTX.tokens[a]
            if isinstance(b, str) and b in CTX.tokens:
                b = CTX.tokens[b]
            return C.same(a, b)

        def same_array(self, a, b, dtype=True):
            if isinstance(a, A.SymRec) or isinstance(b, A.SymRec):
                if a.dtype.names != b.dtype.names:
                    return False
                return self.all(*[self.same_array(a[n], b[n], dtype) for n in a.dtype.names])
            if tuple(_np.shape(a)) != tuple(_np.shape(b)):
                return False
            if dtype:
                da, db = _np.dtype(a.dtype).newbyteorder("="), _np.dtype(b.dtype).newbyteorder("=")
                if da != db:
                    return False
            x, y = A.wrap_list(a).ravel(), A.wrap_list(b).ravel()
            return self.all(*[C.same(p, q) for p, q in zip(x, y)])

        def number(self, text):
            t = text.strip()
            return C.to_float(CTX.tokens[t]) if t in CTX.tokens else float(t)

        def is_sym(self, x):
            return C.is_sym(x)

        def nd(self, x):
            if isinstance(x, (A.SymArray, A.SymRec)):
                return x
            if hasattr(x, "compute") and not isinstance(x, _np.ndarray):
                x = x.compute(scheduler="synchronous")
            return x

        def attempt(self, fn, *a, **k):
            try:
                return fn(*a, **k), None
            except Exception as e:
                return None, e

        def numpy(self):
            return A.NP

        def close(self):
            shutil.rmtree(self.dir, ignore_errors=True)

    return SymbolicEnv


# ------------------------------------------------------------------ patching
def make_shims():
    from . import arr as A
    from . import core as C
    from . import sbytes as S

    CTX = C.CTX

    class _IntMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, int) or isinstance(o, C.SymInt) and o.ldt is None

        def __subclasscheck__(cls, o):
            return issubclass(o, int)

        def __eq__(cls, o):
            return o is int or o is cls or o is C.SymInt

        def __hash__(cls):
            return hash(int)

        def __getattr__(cls, n):
            return getattr(int, n)

        def __or__(cls, o):
            return int | o

    class IntShim(metaclass=_IntMeta):
        dtype = _np.dtype(int)
        __name__ = "int"

        def __new__(cls, *a, **k):
            if len(a) == 1:
                x = a[0]
                if isinstance(x, C.SymInt):
                    return C.SymInt(x.t, x.lo, x.hi)
                if isinstance(x, C.SymBool):
                    return C.mkint(x)
                if isinstance(x, (C.SymFloat, C.SymFrac)):
                    return x.trunc()
                if isinstance(x, A.SymArray) and x.size == 1:
                    return cls(A.raw(x).ravel()[0])
                if isinstance(x, str) and x.strip() in CTX.tokens:
                    v = CTX.tokens[x.strip()]
                    if isinstance(v, C.SymInt):
                        return C.SymInt(v.t, v.lo, v.hi)
                    raise ValueError(f"invalid literal for int() with base 10: {x!r}")
                if isinstance(x, bytes) and _tok_bytes(x) is not None:
                    return cls(_tok_bytes(x))
            return int(*a, **k)

        @staticmethod
        def from_bytes(b, byteorder="big", *, signed=False):
            if isinstance(b, S.SymBytes):
                return S.int_from_cells(b.c, byteorder == "little", signed)
            return int.from_bytes(b, byteorder, signed=signed)

    def _tok_bytes(b):
        try:
            s = b.decode("utf8").strip()
        except UnicodeDecodeError:
            s = b.decode("latin-1").strip()
        return s if s in CTX.tokens else None

    class _FloatMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, float) or isinstance(o, (C.SymFloat, C.SymFrac))

        def __subclasscheck__(cls, o):
            return issubclass(o, float)

        def __eq__(cls, o):
            return o is float or o is cls

        def __hash__(cls):
            return hash(float)

        def __getattr__(cls, n):
            return getattr(float, n)

        def __or__(cls, o):
            return float | o

    class FloatShim(metaclass=_FloatMeta):
        dtype = _np.dtype(float)
        __name__ = "float"

        def __new__(cls, *a):
            if a:
                x = a[0]
                if isinstance(x, A.SymArray) and x.size == 1:
                    x = A.raw(x).ravel()[0]
                if C.is_sym(x) and not isinstance(x, C.SymComplex):
                    return C.to_float(x)
                if isinstance(x, str) and x.strip() in CTX.tokens:
                    return C.to_float(CTX.tokens[x.strip()])
                if isinstance(x, bytes) and _tok_bytes(x) is not None:
                    return C.to_float(CTX.tokens[_tok_bytes(x)])
                return float(x)
            return float()

    class _BytesMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, (bytes, S.SymBytes))

        def __eq__(cls, o):
            return o is bytes or o is cls

        def __hash__(cls):
            return hash(bytes)

        def __getattr__(cls, n):
            return getattr(bytes, n)

        def __or__(cls, o):
            return bytes | o

    class BytesShim(metaclass=_BytesMeta):
        __name__ = "bytes"

        def __new__(cls, *a, **k):
            if len(a) == 1:
                if isinstance(a[0], S.SymBytes):
                    return a[0]
                if isinstance(a[0], (A.SymArray, A.SymRec)):
                    return a[0].tobytes()
                if isinstance(a[0], (list, tuple)) and A.has_sym(a[0]):
                    return S.mkbytes(a[0])
            return bytes(*a, **k)

        @staticmethod
        def fromhex(s):
            return bytes.fromhex(s)

    def open_shim(file, mode="r", *a, **k):
        if CTX.active and isinstance(file, (str, os.PathLike)):
            p = A.VFS_.norm(file)
            if "b" in mode:
                if "r" in mode:
                    if p in A.VFS_.files:
                        return S.SymFile(A.VFS_.get(p), p, mode, A.VFS_)
                elif p.startswith(scratch()):
                    if "x" in mode and os.path.exists(p):
                        raise FileExistsError(17, "File exists", p)
                    if "w" in mode or p not in A.VFS_.files:
                        if not ("a" in mode and p in A.VFS_.files):
                            builtins.open(p, "wb").close()
                            A.VFS_.files[p] = []
                    return S.SymFile(A.VFS_.files[p], p, mode, A.VFS_)
            elif p in A.VFS_.files and "w" in mode:
                del A.VFS_.files[p]
        return builtins.open(file, mode, *a, **k)

    class _BIOMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, (_io.BytesIO, S.SymFile))

    class BytesIOShim(metaclass=_BIOMeta):
        def __new__(cls, b=b""):
            if CTX.active:
                return S.SymFile(S.cells_of(b), None, "r+b")
            return _io.BytesIO(b)

    class IOShim:
        BytesIO = BytesIOShim
        open = staticmethod(open_shim)

        def __getattr__(self, n):
            return getattr(_io, n)

    def wrap_numba(f):
        py = f.py_func

        def call(*a, **k):
            CTX.in_numba += 1
            try:
                return py(*a, **k)
            finally:
                CTX.in_numba -= 1

        call.py_func = py
        call.__name__ = getattr(py, "__name__", "jitted")
        call.__wrapped_numba__ = True
        return call

    class ZlibShim:
        """lossless codec modelled by stored (uncompressed) deflate blocks; the
        checksum is not modelled"""

        def compress(self, data, *a, **k):
            if not CTX.active:
                return _zlib.compress(data, *a, **k)
            return S.mkbytes(stored_stream(S.cells_of(data.tobytes() if hasattr(data, "tobytes") else data)))

        def decompress(self, data, *a, **k):
            if not CTX.active:
                return _zlib.decompress(data, *a, **k)
            cells = S.cells_of(data)
            if all(type(c) is int for c in cells):
                try:
                    return _zlib.decompress(bytes(cells), *a, **k)
                except _zlib.error:
                    pass
            return S.mkbytes(stored_parse(cells))

        def __getattr__(self, n):
            return getattr(_zlib, n)

    class MathShim:
        """CPython's definitions of the conversions of angles"""

        def degrees(self, x):
            return x * (180.0 / _math.pi) if C.is_sym(x) else _math.degrees(x)

        def radians(self, x):
            return x * (_math.pi / 180.0) if C.is_sym(x) else _math.radians(x)

        def isnan(self, x):
            return (x != x) if C.is_sym(x) else _math.isnan(x)

        def __getattr__(self, n):
            return getattr(_math, n)

    class MmapShim:
        """a mapping of a file with symbolic contents: its cells"""

        def mmap(self, fileno, length, *a, **k):
            f = getattr(fileno, "symfile", None)
            if f is None:
                return _mmap.mmap(fileno, length, *a, **k)
            n = int(length)
            if n > len(f.cells):
                raise ValueError("mmap length is greater than file size")
            return S.mkbytes(list(f.cells[: n or len(f.cells)]))

        def __getattr__(self, n):
            return getattr(_mmap, n)

    class ZipfileShim:
        ZipFile = A.ZipShim

        def __getattr__(self, n):
            return getattr(zipfile, n)

    zlib_shim = ZlibShim()
    io_shim = IOShim()
    return types.SimpleNamespace(
        int=IntShim,
        float=FloatShim,
        bytes=BytesShim,
        open=open_shim,
        BytesIO=BytesIOShim,
        io=io_shim,
        struct=S.StructShim,
        np=A.NP,
        zlib=zlib_shim,
        zipfile=ZipfileShim(),
        math=MathShim(),
        mmap=MmapShim(),
        wrap_numba=wrap_numba,
    )


def stored_stream(cells):
    n = len(cells)
    if n > 65535:
        raise ValueError("stored block too long")
    return [0x78, 0x01, 0x01, n & 255, n >> 8, (n & 255) ^ 255, (n >> 8) ^ 255] + list(cells) + [0, 0, 0, 0]


def stored_parse(cells):
    if len(cells) < 11 or list(cells[:3]) != [0x78, 0x01, 0x01]:
        raise _zlib.error("incorrect header check")
    n = cells[3] | cells[4] << 8
    if len(cells) < 11 + n:
        raise _zlib.error("incomplete or truncated stream")
    return list(cells[7 : 7 + n])


def _wrap_units(f):
    from . import core as C

    def convert_units(value, units, to_units):
        if C.is_sym(value):
            k = f(1.0, units, to_units)
            if f(0.0, units, to_units) != 0:
                raise C.Unsupported("affine unit conversion")
            return value if k == 1 else value * k
        return f(value, units, to_units)

    convert_units._symex = True
    return convert_units


_PATCHED = {}
_SHIMS = None
_REAL_IMPORT = builtins.__import__


def patch_all(prefix="rsciio"):
    """Patch every loaded module of the package under test in place."""
    global _SHIMS
    if _SHIMS is None:
        _SHIMS = make_shims()
        _install_import()
    sh = _SHIMS
    try:
        from numba.core.dispatcher import Dispatcher
    except Exception:
        Dispatcher = ()
    for name, m in list(sys.modules.items()):
        if m is None or not (name == prefix or name.startswith(prefix + ".")):
            continue
        if ".tests" in name:
            continue
        d = getattr(m, "__dict__", None)
        if d is None or name in _PATCHED:
            continue
        if getattr(d.get("__spec__"), "_initializing", False):
            continue
        _PATCHED[name] = True
        for k, v in list(d.items()):
            if v is _np:
                d[k] = sh.np
            elif v is _struct:
                d[k] = sh.struct
            elif v is _io:
                d[k] = sh.io
            elif v is _zlib:
                d[k] = sh.zlib
            elif v is zipfile:
                d[k] = sh.zipfile
            elif v is _math:
                d[k] = sh.math
            elif v is _mmap:
                d[k] = sh.mmap
            elif v is _io.BytesIO:
                d[k] = sh.BytesIO
            elif v is _struct.unpack:
                d[k] = sh.struct.unpack
            elif v is _struct.pack:
                d[k] = sh.struct.pack
            elif v is _struct.Struct:
                d[k] = sh.struct.Struct
            elif Dispatcher and isinstance(v, Dispatcher):
                d[k] = sh.wrap_numba(v)
            elif isinstance(v, _struct.Struct):
                d[k] = sh.struct.Struct(v.format)
            elif isinstance(v, types.ModuleType):
                pass
            elif getattr(v, "__module__", None) == "numpy" and isinstance(v, types.FunctionType) and hasattr(sh.np, k):
                d[k] = getattr(sh.np, k)
        for k, v in list(d.items()):
            if isinstance(v, dict) and not k.startswith("__"):
                for kk, vv in list(v.items()):
                    if vv is int:
                        v[kk] = sh.int
                    elif vv is float:
                        v[kk] = sh.float
        cu = d.get("convert_units")
        if isinstance(cu, types.FunctionType) and not hasattr(cu, "_symex"):
            d["convert_units"] = _wrap_units(cu)
        d.setdefault("open", sh.open)
        d.setdefault("int", sh.int)
        d.setdefault("float", sh.float)
        d.setdefault("bytes", sh.bytes)


def _install_import():
    from .core import CTX

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        m = _REAL_IMPORT(name, globals, locals, fromlist, level)
        if CTX.active and globals is not None:
            g = globals.get("__name__", "")
            if isinstance(g, str) and g.startswith("rsciio"):
                if m is _np:
                    return _SHIMS.np
                if m is _struct:
                    return _SHIMS.struct
                if m is _io:
                    return _SHIMS.io
                if m is _zlib:
                    return _SHIMS.zlib
                if m is zipfile:
                    return _SHIMS.zipfile
                if m is _math:
                    return _SHIMS.math
                if m is _mmap:
                    return _SHIMS.mmap
                if isinstance(m, types.ModuleType) and m.__name__.startswith("rsciio"):
                    patch_all()
            elif isinstance(name, str) and name.startswith("rsciio"):
                # a harness imports the code under test
                patch_all()
        return m

    builtins.__import__ = imp


# ------------------------------------------------------------------ explorer
def _snapshot(mods):
    import copy

    snap = []
    for m in mods:
        mod = sys.modules.get(m)
        if mod is None:
            continue
        for k, v in list(mod.__dict__.items()):
            if k.startswith("__"):
                continue
            if isinstance(v, (dict, list, set)):
                try:
                    snap.append((v, copy.deepcopy(v)))
                except Exception:
                    pass
    return snap


def _restore(snap):
    import copy

    for live, saved in snap:
        if live != saved:
            if isinstance(live, dict):
                live.clear()
                live.update(copy.deepcopy(saved))
            elif isinstance(live, list):
                live[:] = copy.deepcopy(saved)
            else:
                live.clear()
                live.update(saved)


def explore(fn, params, budget_s=120, max_paths=100000, reset=()):
    """Run harness fn(env, **params) over all feasible paths."""
    from . import core as C

    CTX = C.CTX
    CTX.reset_all()
    Env = make_symbolic_env()
    r = {
        "paths": 0,
        "ended": {},
        "obligations": 0,
        "discharged": 0,
        "undecided": [],
        "candidates": [],
        "covers": {},
        "check_sites": {},
        "unsupported": {},
        "exhausted": False,
        "samples": [],
        "probe": [],
        "decisions": 0,
    }
    t0 = time.time()
    CTX.deadline = t0 + budget_s
    CTX.fork_limit = getattr(fn, "fork_limit", 300)
    work = [[]]
    patch_all()
    snap = _snapshot(reset)
    try:
        while work and r["paths"] < max_paths and r.get("raised", 0) < 40:
            prefix = work.pop()
            CTX.start(prefix)
            CTX.active = True
            env = Env(r)
            r["paths"] += 1
            why = "complete"
            try:
                try:
                    fn(env, **params)
                finally:
                    CTX.active = False
                    CTX.in_numba = 0
            except C.PathEnd as e:
                why = e.why
            except C.Unsupported as e:
                why = "unsupported"
                if os.environ.get("SYMEX_DEBUG"):
                    traceback.print_exc()
                k = str(e)[:120]
                r["unsupported"][k] = r["unsupported"].get(k, 0) + 1
                m = env.model()
                if m is not None and len(r["probe"]) < 40:
                    r["probe"].append({"msg": "unsupported: " + k, "values": env.values(m)})
            except C.Stop:
                raise
            except RecursionError:
                why = "recursion"
            except Exception as e:
                why = "exception"
                if os.environ.get("SYMEX_DEBUG"):
                    traceback.print_exc()
                tb = traceback.extract_tb(e.__traceback__)
                where = [f"{os.path.basename(os.path.dirname(f.filename))}/{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-3:]
                inrepo = [f.name for f in tb if in_repo(f.filename)]
                msg = f"raised {type(e).__name__} in {inrepo[-1] if inrepo else '?'}"
                r["obligations"] += 1
                env.candidate(msg, None)
                k = f"{type(e).__name__}: {str(e)[:100]} @ {' '.join(where)}"
                r.setdefault("exceptions", {})
                r["exceptions"][k] = r["exceptions"].get(k, 0) + 1
                r["raised"] = r.get("raised", 0) + 1
            r["ended"][why] = r["ended"].get(why, 0) + 1
            r["decisions"] += len(CTX.decisions)
            if why == "complete" and len(r["samples"]) < 6 and env.vars:
                m = env.model()
                if m is not None:
                    r["samples"].append(env.values(m))
            work.extend(CTX.new)
            env.close()
            _restore(snap)
        r["exhausted"] = not work
    except C.Stop:
        r["ended"]["time budget"] = 1
    CTX.active = False
    _restore(snap)
    if C.FORKLOG:
        for k, n in sorted(C.FORKLOG.items(), key=lambda x: -x[1])[:12]:
            print("FORK", n, k, file=sys.stderr)
        C.FORKLOG.clear()
    r["queries"] = CTX.queries
    r["solver_s"] = round(CTX.solver_s, 2)
    r["unknown"] = CTX.unknown
    r["truncated_forks"] = CTX.truncated
    if CTX.truncated:
        r["exhausted"] = False
    r["wall_s"] = round(time.time() - t0, 2)
    return r


def bad_result(e):
    """an exception of a harness which reads a result that is not as it should be,
    not one of a harness which calls something that does not exist (any more)"""
    s = str(e)
    if isinstance(e, TypeError):
        return "argument" not in s
    if isinstance(e, AttributeError):
        return s.startswith(("'NoneType'", "'dict'", "'str'", "'float'", "'int'", "'list'", "'tuple'", "'numpy.", "'bool'"))
    return isinstance(e, (KeyError, IndexError, ValueError, ArithmeticError)) and not isinstance(e, UnicodeError)


def run_concrete(fn, params, values, rng=None):
    """Replay: returns (status, message). status in ok / refuted / skip"""
    env = ConcreteEnv(values, rng)
    try:
        fn(env, **params)
        return "ok", None, env
    except Skip:
        return "skip", None, env
    except Refuted as e:
        return "refuted", str(e), env
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f.name for f in tb if in_repo(f.filename)]
        if not inrepo and not bad_result(e):
            return "error", f"harness: {type(e).__name__}: {str(e)[:200]} at {tb[-1].filename}:{tb[-1].lineno}", env
        return "refuted", f"raised {type(e).__name__} in {inrepo[-1] if inrepo else 'the result'}: {str(e)[:200]}", env
    finally:
        env.close()
