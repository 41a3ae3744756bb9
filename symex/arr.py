"""Symbolic numpy arrays: real numpy object arrays holding symbolic elements,
tagged with the logical dtype the code believes it is using."""

import builtins
import os

import numpy as _np
import z3

from .core import (
    round_mant,
    CTX,
    SymBits,
    SymBool,
    SymComplex,
    SymFloat,
    SymFrac,
    SymInt,
    Unsupported,
    F64,
    RNE,
    _float_dispatch,
    fp_term,
    is_sym,
    ite,
    mkint,
    s_and,
    s_not,
    s_or,
    same,
    to_float,
    wrap_concrete,
    wrap_int,
    norm,
)
from .sbytes import (
    FLT,
    SymBytes,
    SymFile,
    VFS,
    cells_of,
    cells_to_elem,
    elem_to_cells,
    float_bits,
    mkbytes,
)

VFS_ = VFS()


def D(dt):
    """real numpy dtype of whatever the code passes as one"""
    if dt is None:
        return _np.dtype(float)
    if isinstance(dt, _np.dtype):
        return dt
    return _np.dtype(dt)


# -------------------------------------------------------------- elements
def cast_elem(v, dt, src=None):
    """C cast of one element to simple dtype dt (unsafe casting)"""
    k = dt.kind
    if k == "O":
        return v
    if not is_sym(v):
        if isinstance(v, (_np.generic,)):
            v = v.item()
        if k in "iu" and isinstance(v, (bool, int)):
            return int(wrap_int(int(v), dt))
        with _np.errstate(all="ignore"):
            if k == "f" and isinstance(v, complex):
                v = v.real
            return _np.array(v).astype(dt).item()
    if k in "iu":
        if isinstance(v, (SymInt, SymBool)):
            r = wrap_int(v, dt)
            return SymInt(r.t, r.lo, r.hi) if isinstance(r, SymInt) else int(r)
        if isinstance(v, (SymFloat, SymFrac)):
            if isinstance(v, SymFloat) and not isinstance(v, SymBits):
                # out-of-range float -> int is undefined in C
                bad = z3.Or(z3.fpIsNaN(v.f), z3.fpIsInf(v.f), z3.fpGEQ(z3.fpAbs(v.f), z3.FPVal(2.0**62, F64)))
                if CTX.branch(bad):
                    raise Unsupported("cast of a huge or NaN float to integer")
            return cast_elem(v.trunc(), dt)
        if isinstance(v, SymComplex):
            return cast_elem(v.real, dt)
    if k == "b":
        if isinstance(v, SymBool):
            return v
        if isinstance(v, SymComplex):
            return s_or(v.real != 0, v.imag != 0)
        return v != 0
    if k == "f":
        if isinstance(v, SymComplex):
            v = v.real
        if dt.itemsize == 8:
            if isinstance(v, SymBits) and v.fmt == "d":
                return v
            r = to_float(v)
            return SymFloat(r.f) if isinstance(r, SymFloat) else r
        fmt, sort = FLT[dt.itemsize]
        if isinstance(v, SymBits) and v.fmt == fmt:
            return v
        if isinstance(v, (SymInt, SymFrac, SymBool)):
            # exact when representable
            m = mkint(v) if not isinstance(v, SymFrac) else None
            mant = {"e": 11, "f": 24}[fmt]
            if isinstance(m, SymInt) and dt.itemsize > 2:
                m = round_mant(m, mant)
            if isinstance(m, SymInt) and (dt.itemsize > 2 or max(abs(m.lo), abs(m.hi)) <= 1 << mant):
                return SymFrac(SymInt(m.t, m.lo, m.hi), 1)
            if (
                isinstance(v, SymFrac)
                and isinstance(v.den, int)
                and v.den & (v.den - 1) == 0
                and isinstance(v.num, SymInt)
                and max(abs(v.num.lo), abs(v.num.hi)) <= 1 << mant
            ):
                return v
        return SymBits(float_bits(v, dt.itemsize), fmt)
    if k == "c":
        half = _np.dtype("f%d" % (dt.itemsize // 2))
        if isinstance(v, SymComplex):
            return SymComplex(cast_elem(v.real, half), cast_elem(v.imag, half))
        return SymComplex(cast_elem(v, half), 0.0)
    raise Unsupported(f"cast to {dt}")


def elem_out(v, dt):
    """what indexing one element returns to the code"""
    if CTX.in_numba:
        return v
    if isinstance(v, SymInt) and dt is not None and dt.kind in "iu":
        return SymInt(v.t, v.lo, v.hi, dt.newbyteorder("="))
    if is_sym(v) or dt is None:
        return v
    try:
        return dt.newbyteorder("=").type(v)
    except Exception:
        return v


_obj = _np.dtype(object)


def mk(objarr, dt):
    a = _np.asarray(objarr, dtype=object) if not isinstance(objarr, _np.ndarray) else objarr
    r = a.view(SymArray)
    r._ldt = D(dt)
    return r


def raw(a):
    return a.view(_np.ndarray) if isinstance(a, SymArray) else a


def wrap_list(x):
    """object ndarray from a possibly nested list of scalars"""
    if isinstance(x, SymArray):
        return raw(x)
    if isinstance(x, _np.ndarray):
        return x.astype(object)
    if is_sym(x):
        a = _np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        parts = [wrap_list(y) for y in x]
        if not parts:
            return _np.empty((0,), dtype=object)
        sh = parts[0].shape
        for p in parts:
            if p.shape != sh:
                raise ValueError("inhomogeneous shape")
        out = _np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if p.shape else p[()]
        return out
    a = _np.empty((), dtype=object)
    a[()] = x.item() if isinstance(x, _np.generic) else x
    return a


def has_sym(x):
    if is_sym(x) or isinstance(x, (SymArray, SymBytes, SymRec)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y) for y in x.values())
    return False


def guess_dtype(x):
    """dtype numpy would give to a nested list of scalars"""
    dts = []

    def go(y):
        if isinstance(y, (list, tuple)):
            for z in y:
                go(z)
        elif isinstance(y, _np.ndarray):
            dts.append(y.dtype)
        elif isinstance(y, SymInt):
            dts.append(y.ldt or _np.dtype(int))
        elif isinstance(y, SymBool):
            dts.append(_np.dtype(bool))
        elif isinstance(y, SymBits):
            dts.append(_np.dtype({"e": "f2", "f": "f4", "d": "f8"}[y.fmt]))
        elif isinstance(y, (SymFloat, SymFrac)):
            dts.append(_np.dtype(float))
        elif isinstance(y, SymComplex):
            dts.append(_np.dtype(complex))
        else:
            dts.append(_np.asarray(y).dtype)

    go(x)
    if not dts:
        return _np.dtype(float)
    r = dts[0]
    for d in dts[1:]:
        r = _np.promote_types(r, d)
    return r


CMP = {
    _np.equal: "eq",
    _np.not_equal: "ne",
    _np.less: "lt",
    _np.less_equal: "le",
    _np.greater: "gt",
    _np.greater_equal: "ge",
}


def _cmp1(op, a, b):
    if op == "eq":
        return a == b
    if op == "ne":
        r = a == b
        return s_not(r)
    if op == "lt":
        return a < b
    if op == "le":
        return a <= b
    if op == "gt":
        return b < a
    return b <= a


def _conj(a):
    if isinstance(a, SymComplex):
        return a.conjugate()
    return a.conjugate() if hasattr(a, "conjugate") else a


def _cplx(a):
    return SymComplex(a.real, a.imag) if isinstance(a, complex) else a


def _max(a, b):
    return ite(_cplx(a) >= _cplx(b), a, b)


def _min(a, b):
    return ite(_cplx(a) <= _cplx(b), a, b)


def _rint(a):
    return a.__round__() if is_sym(a) else float(_np.rint(a))


def _isnan(a):
    if isinstance(a, SymFloat):
        return a.isnan()
    if is_sym(a):
        return False
    return bool(_np.isnan(a))


def _isfinite(a):
    if isinstance(a, SymFloat):
        return a.isfinite()
    if is_sym(a):
        return True
    return bool(_np.isfinite(a))


def _sqrt(a):
    import math

    if isinstance(a, (SymInt, SymBool)):
        a = CTX.concretize(mkint(a))
    if is_sym(a):
        raise Unsupported("sqrt")
    return float(_np.sqrt(a))


def _truediv(a, b):
    if is_sym(a) or is_sym(b):
        if is_sym(b) and not isinstance(b, SymFloat) and not isinstance(b, SymComplex) or not is_sym(b) and b == 0:
            if builtins.bool(b == 0):
                inf = float("inf")
                return ite(a > 0, inf, ite(a < 0, -inf, float("nan")))
        return a / b
    with _np.errstate(all="ignore"):
        return _np.true_divide(a, b).item()


def _nanred(a, fn, axis=None, **k):
    if axis is not None:
        raise Unsupported("nan reduction over an axis")
    acc = None
    vals = [v for v in raw(a).ravel() if is_sym(v) or v == v]
    b = _bounded(vals, fn is _max)
    if b is not None:
        return elem_out(b, a._ldt)
    for v in vals:
        if acc is None:
            acc = v
        else:
            x, y = _isnan(acc), _isnan(v)
            acc = ite(x, v, ite(y, acc, fn(acc, v)))
    return float("nan") if acc is None else elem_out(acc, a._ldt)


ELEM = {
    _np.add: lambda a, b: a + b,
    _np.subtract: lambda a, b: a - b,
    _np.multiply: lambda a, b: a * b,
    _np.true_divide: _truediv,
    _np.floor_divide: lambda a, b: a // b,
    _np.remainder: lambda a, b: a % b,
    _np.power: lambda a, b: a**b,
    _np.bitwise_and: lambda a, b: a & b,
    _np.bitwise_or: lambda a, b: a | b,
    _np.bitwise_xor: lambda a, b: a ^ b,
    _np.left_shift: lambda a, b: a << b,
    _np.right_shift: lambda a, b: a >> b,
    _np.negative: lambda a: -a,
    _np.positive: lambda a: a,
    _np.absolute: lambda a: abs(a),
    _np.invert: lambda a: s_not(a) if isinstance(a, (bool, SymBool)) else ~a,
    _np.logical_and: lambda a, b: s_and(_tb(a), _tb(b)),
    _np.logical_or: lambda a, b: s_or(_tb(a), _tb(b)),
    _np.logical_not: lambda a: s_not(_tb(a)),
    _np.conjugate: _conj,
    _np.maximum: _max,
    _np.minimum: _min,
    _np.fmax: _max,
    _np.fmin: _min,
    _np.rint: _rint,
    _np.isnan: _isnan,
    _np.isfinite: _isfinite,
    _np.ceil: lambda a: a.__ceil__() if is_sym(a) else float(_np.ceil(a)),
    _np.floor: lambda a: a.__floor__() if is_sym(a) else float(_np.floor(a)),
    _np.trunc: lambda a: a.__trunc__() if is_sym(a) else float(_np.trunc(a)),
    _np.square: lambda a: a * a,
    _np.sqrt: _sqrt,
}
IDENT = {_np.add: 0, _np.multiply: 1, _np.logical_and: True, _np.logical_or: False,
         _np.bitwise_or: 0, _np.bitwise_xor: 0, _np.bitwise_and: -1}


def _tb(a):
    if isinstance(a, (bool, SymBool)):
        return a
    return a != 0


def _ldt_of(x):
    if isinstance(x, SymArray):
        return x._ldt
    if isinstance(x, _np.ndarray) or isinstance(x, _np.generic):
        return x.dtype
    if isinstance(x, SymInt):
        return x.ldt if x.ldt is not None else int
    if isinstance(x, SymBool):
        return _np.dtype(bool)
    if isinstance(x, bool):
        return _np.dtype(bool)
    if isinstance(x, int):
        return int
    if isinstance(x, (SymFloat, SymFrac, float)):
        return float
    if isinstance(x, (SymComplex, complex)):
        return complex
    return _np.asarray(x).dtype


class SymArray(_np.ndarray):
    _ldt = None
    _src = None
    __array_priority__ = 1000

    def __new__(cls, shape, dtype=float, **kw):
        a = _np.empty(shape, dtype=object)
        a.fill(0)
        return mk(a, dtype)

    def __array_finalize__(self, obj):
        if obj is not None:
            self._ldt = getattr(obj, "_ldt", None)

    # -- dtype facade
    @property
    def dtype(self):
        return self._ldt if self._ldt is not None else _obj

    @dtype.setter
    def dtype(self, dt):
        dt = D(dt)
        if dt.itemsize != self._ldt.itemsize:
            raise Unsupported("in-place dtype change with another item size")
        new = self.view(dt)
        raw(self)[...] = raw(new)
        self._ldt = dt

    @property
    def itemsize(self):
        return self._ldt.itemsize

    @property
    def nbytes(self):
        return self._ldt.itemsize * self.size

    # -- elementwise
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, where=True, dtype=None, **kw):
        kw.pop("casting", None)
        if method == "reduce":
            return _reduce(ufunc, inputs[0], out=out, dtype=dtype, **kw)
        if method == "at":
            a, idx, *rest = inputs
            return _ufunc_at(ufunc, a, idx, *rest)
        if method == "accumulate":
            raise Unsupported("ufunc.accumulate")
        if method != "__call__":
            raise Unsupported(f"ufunc method {method}")
        if where is not True:
            raise Unsupported("ufunc where=")
        inputs = tuple(NP.array(x) if isinstance(x, (list, tuple)) else x for x in inputs)
        arrs = [raw(x) if isinstance(x, SymArray) else wrap_list(x) for x in inputs]
        if ufunc in CMP:
            op = CMP[ufunc]
            f = _np.frompyfunc(lambda a, b: _cmp1(op, a, b), 2, 1)
            r = f(*arrs)
            odt = _np.dtype(bool)
        else:
            fn = ELEM.get(ufunc)
            if fn is None:
                if any(is_sym(x) for a in arrs for x in a.ravel()):
                    raise Unsupported(f"ufunc {ufunc.__name__}")
                conc = [_np.asarray(a.tolist(), dtype=_ldt_of(i) if isinstance(i, SymArray) else None)
                        for a, i in zip(arrs, inputs)]
                return ufunc(*conc, **kw)
            try:
                dts = [_ldt_of(x) for x in inputs]
                if not any(isinstance(d, _np.dtype) for d in dts):
                    dts = [_np.dtype(d) for d in dts]
                odt = ufunc.resolve_dtypes(tuple(dts) + (None,) * ufunc.nout)[-1]
            except TypeError as e:
                raise
            if dtype is not None:
                odt = D(dtype)
            src = [a for a in arrs]
            if odt.kind in "fc" and ufunc is not _np.true_divide:
                pass
            r = _np.frompyfunc(lambda *xs: _post(fn(*xs), odt), ufunc.nin, 1)(*src)
        if not isinstance(r, _np.ndarray):
            if out is None:
                return elem_out(r, odt)
            a = _np.empty((), dtype=object)
            a[()] = r
            r = a
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SymArray):
                if not _np.can_cast(odt, o._ldt, "same_kind"):
                    raise _np._core._exceptions._UFuncOutputCastingError(ufunc, "same_kind", odt, o._ldt, 0)
                o[...] = mk(r, odt)
                return o
            # real array target: promote it is impossible
            raise Unsupported("symbolic result into a concrete array")
        return mk(r, odt)

    def __array_function__(self, func, types, args, kwargs):
        h = FUNCS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        # default: run on object arrays, then re-tag
        dts = []

        def conv(x):
            if isinstance(x, SymArray):
                dts.append(x._ldt)
                return raw(x)
            if isinstance(x, _np.ndarray):
                dts.append(x.dtype)
                return x.astype(object) if x.dtype != _obj else x
            if isinstance(x, tuple):
                return tuple(conv(y) for y in x)
            if isinstance(x, list):
                return [conv(y) for y in x]
            return x

        if func not in STRUCTURAL:
            raise Unsupported(f"numpy function {func.__name__}")
        args = conv(args)
        kwargs = {k: conv(v) for k, v in kwargs.items() if k != "dtype"}
        r = func(*args, **kwargs)
        dt = dts[0]
        for d in dts[1:]:
            dt = _np.promote_types(dt, d)

        def back(y):
            if isinstance(y, _np.ndarray):
                return mk(y, dt)
            if isinstance(y, (list, tuple)):
                return type(y)(back(z) for z in y)
            return y

        return back(r)

    # -- casting
    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = D(dtype)
        if dt == self._ldt and not copy:
            return self
        if dt.names:
            raise Unsupported("astype structured")
        o = _np.frompyfunc(lambda v: cast_elem(v, dt), 1, 1)(raw(self))
        if not isinstance(o, _np.ndarray):
            o = wrap_list(o)
        return mk(o.reshape(self.shape), dt)

    def byteswap(self, inplace=False):
        dt = self._ldt
        o = _np.frompyfunc(lambda v: cells_to_elem(elem_to_cells(v, dt)[::-1], dt), 1, 1)(raw(self))
        return mk(o, dt)

    def newbyteorder(self, *a):
        raise AttributeError("newbyteorder")

    def view(self, dtype=None, type=None):
        if dtype is None and type is None:
            return _np.ndarray.view(self)
        if dtype is _np.ndarray or type is _np.ndarray:
            return _np.ndarray.view(self, _np.ndarray)
        if isinstance(dtype, builtins.type) and issubclass(dtype, _np.ndarray):
            return _np.ndarray.view(self, dtype)
        dt = D(dtype)
        if dt == self._ldt:
            return mk(raw(self), dt)
        cells = self._cells()
        n = self._ldt.itemsize
        if self.ndim == 0:
            shape = ()
        else:
            last = self.shape[-1] * n
            if last % dt.itemsize:
                raise ValueError("view: last axis not divisible")
            shape = self.shape[:-1] + (last // dt.itemsize,)
        return from_cells(cells, dt).reshape(shape)

    def _cells(self, order="C"):
        out = []
        dt = self._ldt
        for v in raw(self).ravel(order=order):
            out += elem_to_cells(v, dt)
        return out

    def tobytes(self, order="C"):
        return mkbytes(self._cells(order or "C"))

    def tofile(self, f, sep="", format="%s"):
        if sep:
            raise Unsupported("text tofile")
        data = self.tobytes()
        if isinstance(f, (str, os.PathLike)):
            VFS_.put(f, cells_of(data))
            return
        if isinstance(f, SymFile):
            f.write(data)
            return
        raise Unsupported("tofile on a real file")

    def tolist(self):
        def go(a):
            if a.ndim == 0:
                return a[()]
            return [go(a[i]) if a.ndim > 1 else a[i] for i in range(a.shape[0])]

        r = go(raw(self))
        return r

    def item(self, *a):
        return raw(self).item(*a)

    def copy(self, order="C"):
        return mk(raw(self).copy(), self._ldt)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __dask_tokenize__(self):
        return ("symarray", id(self))

    # -- reductions
    def _red(self, ufunc, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _reduce(ufunc, self, axis=axis, dtype=dtype, out=out, keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return self._red(_np.add, axis, dtype, out, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return self._red(_np.multiply, axis, dtype, out, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return self._red(_np.maximum, axis, None, out, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return self._red(_np.minimum, axis, None, out, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return self._red(_np.logical_and, axis, None, out, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return self._red(_np.logical_or, axis, None, out, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        if out is not None:
            raise Unsupported("mean out=")
        if self.size == 0:
            raise Unsupported("mean of an empty array")
        odt = D(dtype) if dtype is not None else (_np.dtype(float) if self._ldt.kind in "iub" else self._ldt.newbyteorder("="))
        s = self.astype(odt).sum(axis=axis, keepdims=keepdims)
        n = self.size // (s.size if isinstance(s, _np.ndarray) else 1)
        return s if n == 1 else s / n

    def argmax(self, axis=None, **kw):
        if axis is not None:
            raise Unsupported("argmax axis")
        flat = list(raw(self).ravel())
        best, bi = flat[0], 0
        for i, v in enumerate(flat[1:], 1):
            c = best < v
            best, bi = ite(c, v, best), ite(c, i, bi)
        return bi

    def argmin(self, axis=None, **kw):
        return (-self).argmax()

    def round(self, decimals=0, out=None):
        if decimals:
            raise Unsupported("round decimals")
        o = _np.frompyfunc(_rint, 1, 1)(raw(self))
        return mk(o, self._ldt)

    def conj(self):
        return _np.conjugate(self)

    @property
    def real(self):
        if self._ldt.kind != "c":
            return self
        return mk(_np.frompyfunc(lambda v: v.real, 1, 1)(raw(self)), "f%d" % (self._ldt.itemsize // 2))

    @property
    def imag(self):
        return mk(_np.frompyfunc(lambda v: v.imag, 1, 1)(raw(self)), "f%d" % (self._ldt.itemsize // 2))

    def fill(self, v):
        raw(self).fill(cast_elem(v, self._ldt))

    # -- dask look-alikes
    def compute(self, *a, **k):
        return self

    # -- indexing
    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __getitem__(self, key):
        key = _fixkey(key)
        r = _getitem(self, key)
        return r

    def __setitem__(self, key, value):
        key = _fixkey(key)
        _setitem(self, key, value)

    def __bool__(self):
        if self.size == 1:
            return builtins.bool(raw(self).ravel()[0])
        raise ValueError("truth value of an array is ambiguous")

    def __index__(self):
        if self.size == 1:
            v = raw(self).ravel()[0]
            return CTX.concretize(v) if isinstance(v, SymInt) else v.__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __int__(self):
        if self.size == 1:
            return int(raw(self).ravel()[0])
        raise TypeError("only size-1 arrays can be converted to Python scalars")

    def __float__(self):
        if self.size == 1:
            return float(raw(self).ravel()[0])
        raise TypeError("only size-1 arrays can be converted to Python scalars")

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        return f"SymArray(shape={self.shape}, dtype={self._ldt})"

    __str__ = __repr__

    def __format__(self, spec):
        return self.__repr__()

    def __reduce__(self):
        tok = CTX.token(self)
        return (_restore_arr, (tok,))

    def __contains__(self, v):
        return builtins.bool(s_or(*[x == v for x in raw(self).ravel()]))

    def take(self, idx, axis=None, **kw):
        if axis is None:
            return self.ravel()[idx]
        sl = [slice(None)] * self.ndim
        sl[axis] = idx
        return self[tuple(sl)]

    def repeat(self, n, axis=None):
        return mk(raw(self).repeat(n, axis=axis), self._ldt)

    def flush(self):
        src = self._src
        if src is not None:
            src._sync_to_file()

    def tostring(self):
        return self.tobytes()


def _restore_arr(tok):
    return CTX.tokens[tok]


def _post(v, odt):
    if is_sym(v):
        if odt.kind == "f" and isinstance(v, (SymInt, SymBool)):
            return cast_elem(v, odt)
        if isinstance(v, SymInt) and v.ldt is not None:
            v = SymInt(v.t, v.lo, v.hi)
        if odt.kind in "iub":
            return cast_elem(v, odt)
        if odt.kind == "f" and odt.itemsize < 8 and isinstance(v, SymFloat):
            return cast_elem(v, odt)
        return v
    return cast_elem(v, odt)


def _bounded(vals, big):
    """a concrete element that no other can exceed, or None"""
    from fractions import Fraction as F

    con, sym = [], []
    for v in vals:
        if isinstance(v, SymInt):
            sym += [v.hi if big else v.lo]
        elif isinstance(v, SymFrac) and isinstance(v.num, SymInt) and isinstance(v.den, int):
            sym += [F(v.num.hi if big else v.num.lo, v.den)]
        elif is_sym(v) or isinstance(v, complex) or v in (float("inf"), -float("inf")):
            return None
        else:
            con.append(v)
    if not con or not sym or None in sym:
        return None
    c = (max if big else min)(con)
    return c if all((s <= F(c)) if big else (s >= F(c)) for s in sym) else None


def _extreme(vals, big):
    """min/max of integers as a named variable (keeps later terms small)"""
    b = _bounded(vals, big)
    if b is not None:
        return b
    if not any(isinstance(v, SymInt) for v in vals):
        return None
    if not all(isinstance(v, (SymInt, int, _np.integer)) and not isinstance(v, _np.bool_) for v in vals):
        return None
    import z3

    lo = [v.lo if isinstance(v, SymInt) else int(v) for v in vals]
    hi = [v.hi if isinstance(v, SymInt) else int(v) for v in vals]
    if None in lo or None in hi:
        return None
    w = max([v.t.size() for v in vals if isinstance(v, SymInt)] + [int(v).bit_length() + 1 for v in vals if not isinstance(v, SymInt)])
    ts = [v.at(w) if isinstance(v, SymInt) else z3.BitVecVal(int(v), w) for v in vals]
    t = z3.BitVec(CTX.fresh("ext"), w)
    CTX.add(z3.Or(*[t == u for u in ts]))
    CTX.add(z3.And(*[(t >= u) if big else (t <= u) for u in ts]))
    ldt = next((v.ldt for v in vals if isinstance(v, SymInt)), None)
    return SymInt(t, (max if big else min)(lo), (max if big else min)(hi), ldt)


def _reduce(ufunc, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True, **kw):
    if not isinstance(a, SymArray):
        a = mk(wrap_list(a), _ldt_of(a))
    fn = ELEM.get(ufunc)
    if fn is None or where is not True:
        raise Unsupported(f"reduce {ufunc.__name__}")
    if dtype is not None:
        odt = D(dtype)
    elif ufunc in (_np.logical_and, _np.logical_or):
        odt = _np.dtype(bool)
    elif ufunc in (_np.add, _np.multiply):
        k = a._ldt.kind
        odt = (
            _np.dtype(int) if k in "bi" else _np.dtype("uint64") if k == "u" else a._ldt
        )
        if k in "iu" and a._ldt.itemsize == 8:
            odt = a._ldt.newbyteorder("=")
    else:
        odt = a._ldt.newbyteorder("=")
    x = raw(a)
    if axis is None:
        axes = tuple(range(x.ndim))
    else:
        axes = axis if isinstance(axis, tuple) else (int(axis),)
        axes = tuple(i % x.ndim for i in axes)
    keep = [i for i in range(x.ndim) if i not in axes]
    y = x.transpose(keep + list(axes))
    oshape = tuple(x.shape[i] for i in keep)
    res = _np.empty(oshape, dtype=object)
    for idx in _np.ndindex(*oshape):
        vals = list(y[idx].ravel()) if axes else [y[idx]]
        if not vals:
            if ufunc not in IDENT:
                raise ValueError("zero-size array to reduction operation which has no identity")
            acc = IDENT[ufunc]
        else:
            acc = vals[0] if not ufunc in (_np.logical_and, _np.logical_or) else _tb(vals[0])
            if ufunc in (_np.minimum, _np.maximum) and len(vals) > 2:
                acc = _extreme(vals, ufunc is _np.maximum)
                vals = vals[:1] if acc is not None else vals
                acc = vals[0] if acc is None else acc
            for v in vals[1:]:
                acc = fn(acc, v)
        if initial is not None and not (isinstance(initial, type(_np._NoValue))):
            acc = fn(acc, initial)
        res[idx] = _post(acc, odt) if odt.kind != "b" else acc
    if keepdims:
        sh = tuple(1 if i in axes else x.shape[i] for i in range(x.ndim))
        res = res.reshape(sh)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        o[...] = mk(res, odt)
        return o
    if res.ndim == 0:
        return elem_out(res[()], odt)
    return mk(res, odt)


# -------------------------------------------------------------- indexing
def _fixkey(key):
    def fix(k):
        if isinstance(k, SymArray):
            if k.dtype.kind == "b":
                if any(is_sym(x) for x in raw(k).ravel()):
                    return k
                return raw(k).astype(bool)
            if any(is_sym(x) for x in raw(k).ravel()):
                return k
            return raw(k).astype(int)
        if isinstance(k, SymBool):
            raise Unsupported("symbolic bool index")
        if isinstance(k, list) and has_sym(k):
            return mk(wrap_list(k), guess_dtype(k))
        return k

    if isinstance(key, tuple):
        return tuple(fix(k) for k in key)
    return fix(key)


def _norm_index(i, n):
    """in-range check (forks) and normalisation of one symbolic index"""
    ok = (i >= -n) & (i < n)
    if not builtins.bool(ok):
        raise IndexError(f"index is out of bounds for axis with size {n}")
    return ite(i < 0, i + n, i)


ITE_LIMIT = 600


def _sym_positions(key):
    return [k for k, x in enumerate(key) if isinstance(x, SymInt)]


def _getitem(a, key):
    x = raw(a)
    k = key if isinstance(key, tuple) else (key,)
    if any(isinstance(e, SymArray) for e in k):
        return _fancy_get(a, k)
    if any(isinstance(e, SymInt) for e in k) and not any(isinstance(e, (_np.ndarray, list)) for e in k):
        return _sym_get(a, k)
    r = x[key]
    if isinstance(r, _np.ndarray):
        if x.ndim == 0 and isinstance(key, tuple) and key == ():
            return elem_out(r[()], a._ldt)
        return mk(r, a._ldt)
    return elem_out(r, a._ldt)


def _expand(k, ndim):
    """expand Ellipsis; returns list aligned with source axes (no newaxis)"""
    if any(e is None for e in k):
        raise Unsupported("newaxis with symbolic index")
    n = sum(1 for e in k if e is not Ellipsis)
    out = []
    seen = False
    for e in k:
        if e is Ellipsis and not seen:
            out += [slice(None)] * (ndim - n)
            seen = True
        else:
            out.append(e)
    out += [slice(None)] * (ndim - len(out))
    return out


def _sym_get(a, k):
    x = raw(a)
    k = _expand(k, x.ndim)
    # symbolic axes one at a time
    ks = list(k)
    cur = x
    # apply concrete part with symbolic axes kept
    axis_map = []
    pre = []
    for ax, e in enumerate(ks):
        pre.append(slice(None) if isinstance(e, SymInt) else e)
    syms = [(ax, e) for ax, e in enumerate(ks) if isinstance(e, SymInt)]
    cur = x[tuple(pre)]
    # position of symbolic axes in cur
    removed = 0
    pos = []
    for ax, e in enumerate(ks):
        if isinstance(e, (int, _np.integer)):
            removed += 1
        elif isinstance(e, SymInt):
            pos.append((ax - removed, e))
    done = 0
    for p, e in pos:
        p -= done
        n = cur.shape[p]
        e = _norm_index(SymInt(e.t, e.lo, e.hi), n)
        if not isinstance(e, SymInt):
            cur = _np.take(cur, int(e), axis=p)
            done += 1
            continue
        lo, hi = max(e.lo, 0), min(e.hi, n - 1)
        acc = _np.take(cur, hi, axis=p)
        for j in range(hi - 1, lo - 1, -1):
            c = e == j
            nxt = _np.take(cur, j, axis=p)
            acc = _ite_arr(c, nxt, acc)
        cur = acc
        done += 1
    if isinstance(cur, _np.ndarray) and cur.ndim:
        return mk(cur, a._ldt)
    if isinstance(cur, _np.ndarray):
        cur = cur[()]
    return elem_out(cur, a._ldt)


def _ite_arr(c, a, b):
    if isinstance(a, _np.ndarray):
        return _np.frompyfunc(lambda p, q: ite(c, p, q), 2, 1)(a, b)
    return ite(c, a, b)


def _setval(a, value):
    """object array / scalar of value cast to a's dtype"""
    dt = a._ldt
    if isinstance(value, SymArray):
        v = raw(value) if value._ldt == dt else raw(value.astype(dt))
        return v
    if isinstance(value, _np.ndarray):
        if value.ndim == 0:
            return cast_elem(value[()], dt)
        return _np.frompyfunc(lambda q: cast_elem(q, dt), 1, 1)(value.astype(object) if value.dtype.names is None else value)
    if isinstance(value, (list, tuple)):
        return _np.frompyfunc(lambda q: cast_elem(q, dt), 1, 1)(wrap_list(value))
    if isinstance(value, int) and not isinstance(value, bool) and dt.kind in "iu" and not CTX.in_numba:
        lo, hi = (0, (1 << 8 * dt.itemsize) - 1) if dt.kind == "u" else (-(1 << (8 * dt.itemsize - 1)), (1 << (8 * dt.itemsize - 1)) - 1)
        if not lo <= value <= hi:
            raise OverflowError(f"Python integer {value} out of bounds for {dt}")
    if isinstance(value, SymInt) and value.ldt is None and dt.kind in "iu" and not CTX.in_numba:
        lo, hi = (0, (1 << 8 * dt.itemsize) - 1) if dt.kind == "u" else (-(1 << (8 * dt.itemsize - 1)), (1 << (8 * dt.itemsize - 1)) - 1)
        if builtins.bool((value < lo) | (value > hi)):
            raise OverflowError(f"Python integer out of bounds for {dt}")
    return cast_elem(value, dt)


def _setitem(a, key, value):
    x = raw(a)
    k = key if isinstance(key, tuple) else (key,)
    v = _setval(a, value)
    if any(isinstance(e, SymArray) for e in k):
        return _fancy_set(a, k, v)
    if any(isinstance(e, SymInt) for e in k):
        k = _expand(k, x.ndim)
        cand = []
        for ax, e in enumerate(k):
            n = x.shape[ax]
            if isinstance(e, SymInt):
                e = _norm_index(SymInt(e.t, e.lo, e.hi), n)
                if isinstance(e, SymInt):
                    cand.append([(j, e == j) for j in range(max(e.lo, 0), min(e.hi, n - 1) + 1)])
                else:
                    cand.append([(int(e), True)])
            elif isinstance(e, (int, _np.integer)):
                cand.append([(int(e), True)])
            else:
                cand.append([(e, True)])
        import itertools

        for combo in itertools.product(*cand):
            idx = tuple(c[0] for c in combo)
            cond = s_and(*[c[1] for c in combo])
            if cond is False:
                continue
            old = x[idx]
            if isinstance(old, _np.ndarray):
                vv = _np.broadcast_to(v, old.shape) if isinstance(v, _np.ndarray) else v
                x[idx] = _np.frompyfunc(lambda o, q: ite(cond, q, o), 2, 1)(old, vv)
            else:
                x[idx] = ite(cond, v, old)
        return
    if isinstance(v, _np.ndarray):
        x[key] = v
    else:
        # object assignment of a scalar: guard against sequence-like elements
        t = x[key]
        if isinstance(t, _np.ndarray):
            b = _np.empty((), dtype=object)
            b[()] = v
            x[key] = b
        else:
            x[key] = v


def _fancy_get(a, k):
    x = raw(a)
    if len(k) == 1 and k[0].dtype.kind == "b":
        m = k[0]
        flags = _np.frompyfunc(lambda b: builtins.bool(b), 1, 1)(raw(m)).astype(bool)
        return mk(x[flags], a._ldt)
    # symbolic integer arrays: elementwise
    arrs = []
    for e in k:
        if isinstance(e, SymArray):
            arrs.append(raw(e))
        elif isinstance(e, (_np.ndarray, list)):
            arrs.append(_np.asarray(e).astype(object))
        elif isinstance(e, (int, _np.integer, SymInt)):
            t = _np.empty((), dtype=object)
            t[()] = e
            arrs.append(t)
        else:
            arrs = None
            break
    if arrs is None:
        # fork the index arrays
        kk = tuple(_conc_arr(e) if isinstance(e, SymArray) else e for e in k)
        return mk(x[kk], a._ldt)
    bs = _np.broadcast_arrays(*arrs)
    out = None
    shape = bs[0].shape
    rest = x.shape[len(k):]
    out = _np.empty(shape + rest, dtype=object)
    for idx in _np.ndindex(*shape):
        sub = a[tuple(b[idx] for b in bs)]
        out[idx] = raw(sub) if isinstance(sub, SymArray) else sub
    return mk(out, a._ldt)


def _conc_arr(e):
    f = _np.frompyfunc(lambda b: CTX.concretize(b) if isinstance(b, SymInt) else builtins.bool(b) if isinstance(b, SymBool) else b, 1, 1)
    r = f(raw(e))
    return _np.asarray(r.tolist(), dtype=bool if e.dtype.kind == "b" else int).reshape(e.shape)


def _fancy_set(a, k, v):
    x = raw(a)
    if len(k) == 1 and k[0].dtype.kind == "b":
        m = raw(k[0])
        if not isinstance(v, _np.ndarray) or v.ndim == 0:
            vv = v if not isinstance(v, _np.ndarray) else v[()]
            if m.ndim < x.ndim:
                m = m.reshape(m.shape + (1,) * (x.ndim - m.ndim))
                m = _np.broadcast_to(m, x.shape)
            x[...] = _np.frompyfunc(lambda c, o: ite(c, vv, o), 2, 1)(m, x)
            return
        flags = _conc_arr(k[0])
        x[flags] = v
        return
    kk = tuple(_conc_arr(e) if isinstance(e, SymArray) else CTX.concretize(e) if isinstance(e, SymInt) else e for e in k)
    x[kk] = v


def _ufunc_at(ufunc, a, idx, *rest):
    fn = ELEM.get(ufunc)
    if fn is None:
        raise Unsupported("ufunc.at")
    k = idx if isinstance(idx, tuple) else (idx,)
    arrs = [raw(e) if isinstance(e, SymArray) else _np.asarray(e).astype(object) for e in k]
    val = rest[0] if rest else None
    varr = wrap_list(val) if val is not None else None
    bs = _np.broadcast_arrays(*arrs, *([varr] if varr is not None else []))
    for i in _np.ndindex(*bs[0].shape):
        key = tuple(b[i] for b in bs[: len(k)])
        cur = a[key]
        a[key] = fn(cur, bs[-1][i]) if varr is not None else fn(cur)


# -------------------------------------------------------------- construction
def from_cells(cells, dt):
    dt = D(dt)
    if dt.names or dt.subdtype:
        return rec_from_cells(cells, dt)
    n = dt.itemsize
    if dt.kind == "V" and all(type(x) is int for x in cells):
        return _np.frombuffer(bytes(cells), dt).copy()
    cnt = len(cells) // n
    o = _np.empty((cnt,), dtype=object)
    for i in range(cnt):
        o[i] = cells_to_elem(cells[i * n : (i + 1) * n], dt)
    return mk(o, dt)


def rec_from_cells(cells, dt):
    n = dt.itemsize
    if dt.subdtype:
        base, sh = dt.subdtype
        r = from_cells(cells, base)
        return r.reshape((len(cells) // n,) + sh)
    cnt = len(cells) // n
    fields = {}
    for name in dt.names:
        fdt, off = dt.fields[name][:2]
        sub = []
        for i in range(cnt):
            sub += cells[i * n + off : i * n + off + fdt.itemsize]
        fields[name] = from_cells(sub, fdt) if fdt.itemsize else _np.zeros(cnt, fdt)
    return SymRec(fields, dt, (cnt,))


class SymRec:
    """structured array: one array per field"""

    def __init__(self, fields, dt, shape):
        self.f = fields
        self.dtype = dt
        self.shape = shape

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return int(_np.prod(self.shape))

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def flags(self):
        return {"C_CONTIGUOUS": True, "F_CONTIGUOUS": self.ndim < 2, "WRITEABLE": True, "OWNDATA": True}

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, k):
        if isinstance(k, str):
            r = self.f[k]
            if self.shape == () and isinstance(r, SymArray) and r.ndim == 0:
                return r[()]
            return r
        if isinstance(k, _np.ndarray) and (k.dtype.kind == "U" or k.dtype == object and k.size and isinstance(k.ravel()[0], str)):
            k = [str(x) for x in k.ravel()]
        if isinstance(k, list) and k and isinstance(k[0], str):
            dt = self.dtype[list(k)]
            return SymRec({n: self.f[n] for n in k}, dt, self.shape)
        fs = {}
        for n, a in self.f.items():
            fs[n] = a[k] if not isinstance(a, SymArray) else mk(_asarr(raw(a)[k]), a._ldt)
        first = next(iter(self.f.values()))
        probe = _np.empty(self.shape, dtype=bool)[k]
        return SymRec(fs, self.dtype, _np.shape(probe))

    def __setitem__(self, k, v):
        if isinstance(k, str):
            t = self.f[k]
            if isinstance(t, SymArray) and t.ndim == 0:
                t[()] = v
            else:
                t[...] = v
            return
        if isinstance(v, SymRec):
            for n in self.dtype.names:
                t = self.f[n]
                src = v.f[n]
                if isinstance(t, SymRec):
                    t[k] = src
                else:
                    val = raw(src)
                    cur = raw(t)[k]
                    if not isinstance(cur, _np.ndarray):
                        t[k] = val.ravel()[0] if isinstance(val, _np.ndarray) else val
                    else:
                        t[k] = mk(val.reshape(cur.shape) if val.size == cur.size else val, src._ldt)
            return
        raise Unsupported("assignment into a structured array")

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def reshape(self, *sh, **kw):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        probe = _np.empty(self.shape, dtype=bool).reshape(sh, **kw)
        fs = {}
        for n, a in self.f.items():
            extra = a.shape[len(self.shape):]
            if kw.get("order") == "F" and extra:
                raise Unsupported("reshape order F of a structured array with sub-arrays")
            fs[n] = a.reshape(probe.shape + extra, **({} if extra else kw))
        return SymRec(fs, self.dtype, probe.shape)

    def squeeze(self, axis=None):
        probe = _np.empty(self.shape, dtype=bool).squeeze(axis)
        return self.reshape(probe.shape)

    def copy(self):
        return SymRec({n: a.copy() for n, a in self.f.items()}, self.dtype, self.shape)

    def _cells(self):
        n = self.size
        out = []
        flat = self.reshape((n,)) if self.shape != (n,) else self
        for i in range(n):
            rec = [0] * self.dtype.itemsize
            for name in self.dtype.names:
                fdt, off = self.dtype.fields[name][:2]
                a = flat.f[name]
                if isinstance(a, SymRec):
                    cs = a[i : i + 1]._cells()
                elif not isinstance(a, SymArray):
                    cs = list(_np.asarray(a)[i].tobytes())
                else:
                    cs = mk(_asarr(raw(a)[i]), a._ldt)._cells()
                rec[off : off + len(cs)] = cs
            out += rec
        return out

    def tobytes(self):
        return mkbytes(self._cells())

    def tofile(self, f, *a):
        if isinstance(f, (str, os.PathLike)):
            VFS_.put(f, self._cells())
        else:
            f.write(self.tobytes())

    def tolist(self):
        if self.shape == ():
            return tuple(
                a.tolist() if isinstance(a, SymRec) else (a.tolist() if a.ndim else raw(a)[()])
                for a in self.f.values()
            )
        return [self[i].tolist() for i in range(self.shape[0])]

    def item(self):
        if self.size == 1:
            return self.reshape(()).tolist()
        raise ValueError("can only convert an array of size 1")

    def astype(self, dt):
        dt = D(dt)
        if dt.names and len(dt.names) == len(self.dtype.names):
            fs = {}
            for n, o in zip(dt.names, self.dtype.names):
                fs[n] = self.f[o].astype(dt[n])
            return SymRec(fs, dt, self.shape)
        raise Unsupported("astype of a structured array")

    def view(self, dt=None, *a):
        if dt is None:
            return self
        if isinstance(dt, type) and issubclass(dt, _np.ndarray):
            return self
        dt = D(dt)
        if dt.subdtype is not None:
            base, sub = dt.subdtype
            return from_cells(self._cells(), base).reshape(self.shape + tuple(sub))
        r = from_cells(self._cells(), dt)
        if self.ndim and not dt.names:
            last = self.shape[-1] * self.dtype.itemsize // dt.itemsize
            return r.reshape(self.shape[:-1] + (last,))
        return r

    def ravel(self):
        return self.reshape((self.size,))

    @property
    def T(self):
        fs = {n: mk(_np.transpose(raw(a), tuple(range(self.ndim))[::-1] + tuple(range(self.ndim, a.ndim))), a._ldt) for n, a in self.f.items()}
        return SymRec(fs, self.dtype, self.shape[::-1])

    def flush(self):
        src = getattr(self, "_src", None)
        if src is not None:
            src._sync_to_file()

    def __deepcopy__(self, memo):
        return self.copy()

    def __dask_tokenize__(self):
        return ("symrec", id(self))

    def compute(self, *a, **k):
        return self


def _asarr(x):
    if isinstance(x, _np.ndarray):
        return x
    a = _np.empty((), dtype=object)
    a[()] = x
    return a


# -------------------------------------------------------------- np functions
def _wb(dt):
    return dt


def f_where(cond, *xy):
    if not xy:
        flags = _conc_arr(cond) if isinstance(cond, SymArray) else cond
        return _np.nonzero(flags)
    a, b = xy
    dts = []
    for v in (a, b):
        d = _ldt_of(v)
        dts.append(d if isinstance(d, _np.dtype) else _np.dtype(d))
    da = [_ldt_of(v) for v in (a, b)]
    if not isinstance(da[0], _np.dtype) and isinstance(da[1], _np.dtype) and da[1].kind in "iuf":
        odt = da[1] if not (da[0] is float and da[1].kind != "f") else dts[0]
    elif not isinstance(da[1], _np.dtype) and isinstance(da[0], _np.dtype) and da[0].kind in "iuf":
        odt = da[0] if not (da[1] is float and da[0].kind != "f") else dts[1]
    else:
        odt = _np.promote_types(*dts)
    c = raw(cond) if isinstance(cond, SymArray) else wrap_list(cond)
    r = _np.frompyfunc(lambda p, x, y: ite(p if isinstance(p, (bool, SymBool)) else p != 0, x, y), 3, 1)(c, wrap_list(a), wrap_list(b))
    return mk(_asarr(r), odt)


def f_array_equal(a, b, *k, **kw):
    if tuple(_np.shape(a)) != tuple(_np.shape(b)):
        return False
    x, y = wrap_list(a), wrap_list(b)
    return builtins.bool(s_and(*[p == q for p, q in zip(x.ravel(), y.ravel())]))


def f_prod(a, axis=None, dtype=None, **kw):
    if isinstance(a, SymArray):
        return a.prod(axis=axis, dtype=dtype)
    if has_sym(a):
        r = 1
        for v in a:
            r = r * v
        return r
    return _np.prod(a, axis=axis, dtype=dtype)


def f_bincount(x, weights=None, minlength=0):
    n = int(minlength)
    if weights is not None:
        raise Unsupported("bincount weights")
    vals = list(raw(x).ravel()) if isinstance(x, SymArray) else list(x)
    his = [v.hi if isinstance(v, SymInt) else int(v) for v in vals]
    for v in vals:
        if builtins.bool(v < 0):
            raise ValueError("'list' argument must have no negative elements")
    # output length depends on the data: fork on the maximum
    length = n
    for v in vals:
        if isinstance(v, SymInt):
            if builtins.bool(v >= length):
                length = CTX.concretize(v) + 1
        else:
            length = max(length, int(v) + 1)
    out = _np.empty((length,), dtype=object)
    for j in range(length):
        acc = 0
        for v in vals:
            acc = acc + (mkint(v == j) if isinstance(v == j, SymBool) else int(v == j))
        out[j] = acc
    return mk(out, int)


def f_unique(a, **kw):
    if kw:
        raise Unsupported("unique with options")
    vals = list(raw(a).ravel())
    vals = [CTX.concretize(v) if isinstance(v, SymInt) else v for v in vals]
    if any(is_sym(v) for v in vals):
        raise Unsupported("unique of symbolic floats")
    return _np.unique(_np.asarray(vals, dtype=a.dtype))


def f_diff(a, n=1, axis=-1, **kw):
    if n != 1:
        raise Unsupported("diff n")
    s1 = [slice(None)] * a.ndim
    s2 = [slice(None)] * a.ndim
    s1[axis] = slice(1, None)
    s2[axis] = slice(None, -1)
    return a[tuple(s1)] - a[tuple(s2)]


def f_cumsum(a, axis=None, dtype=None, out=None):
    if not isinstance(a, _np.ndarray):
        a = _np.array(a)
    if axis is not None and a.ndim != 1:
        raise Unsupported("cumsum axis")
    x = raw(a).ravel() if isinstance(a, SymArray) else a.ravel().tolist()
    o = _np.empty(len(x), dtype=object)
    acc = 0
    for i, v in enumerate(x):
        acc = acc + v
        o[i] = acc
    k = a._ldt.kind if isinstance(a, SymArray) else a.dtype.kind
    r = mk(o, int if k in "bi" else "uint64" if k == "u" else a._ldt if isinstance(a, SymArray) else a.dtype)
    if out is not None:
        out[...] = r
        return out
    return r


def f_argsort(a, axis=-1, kind=None, **k):
    if a.ndim != 1:
        raise Unsupported("argsort of several dimensions")
    vals = list(raw(a))
    idx = []
    for i, v in enumerate(vals):  # stable insertion, as numpy does for small arrays
        j = len(idx)
        while j and builtins.bool(v < vals[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return _np.array(idx, dtype=int)


def f_count_nonzero(a, axis=None, **k):
    return (a != 0).sum(axis=axis)


def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def g(v):
        if isinstance(v, SymFloat):
            return ite(v.isnan(), nan, ite(v == _np.inf, hi, ite(v == -_np.inf, lo, v)))
        if isinstance(v, float):
            return nan if v != v else hi if v == _np.inf else lo if v == -_np.inf else v
        return v

    if x._ldt.kind != "f":
        return x.copy()
    f = _np.finfo(x._ldt)
    hi = float(f.max) if posinf is None else posinf
    lo = float(f.min) if neginf is None else neginf
    r = mk(_np.frompyfunc(g, 1, 1)(raw(x)), x._ldt)
    if not copy:
        x[...] = r
    return r


def f_copyto(dst, src, **kw):
    dst[...] = src


def f_shape(a):
    return a.shape


def f_around(a, decimals=0, out=None):
    if isinstance(a, SymArray):
        return a.round(decimals)
    return a.__round__(decimals if decimals else None)


def f_insert(arr, obj, values, axis=None):
    if not isinstance(arr, SymArray):
        arr = mk(wrap_list(arr), _ldt_of(arr))
    return mk(_np.insert(raw(arr), obj, wrap_list(values) if has_sym(values) else values, axis=axis), arr._ldt)


def f_append(arr, values, axis=None):
    a = wrap_list(arr)
    v = wrap_list(values)
    d = _np.promote_types(guess_dtype(arr), guess_dtype(values))
    return mk(_np.append(a, v, axis=axis), d)


def f_searchsorted(a, v, side="left", sorter=None):
    def one(x):
        r = 0
        for e in wrap_list(a).ravel():
            c = (e < x) if side == "left" else (e <= x)
            r = r + (mkint(c) if isinstance(c, SymBool) else int(c))
        return r

    if is_sym(v) or not hasattr(v, "shape") or v.shape == ():
        return one(v)
    return mk(_np.frompyfunc(one, 1, 1)(wrap_list(v)), int)


def f_like(fill):
    def f(a, *args, dtype=None, shape=None, **kw):
        o = _np.empty(a.shape if shape is None else shape, dtype=object)
        dt = a._ldt if dtype is None else D(dtype)
        o.fill(0)
        r = mk(o, dt)
        r[...] = fill if fill is not None else args[0]
        return r

    return f


def f_isin(a, test, **kw):
    def one(v):
        return s_or(*[v == t for t in wrap_list(test).ravel()])

    return mk(_np.frompyfunc(one, 1, 1)(wrap_list(a)), bool)


def f_allclose(a, b, *k, **kw):
    x, y = _np.broadcast_arrays(wrap_list(a), wrap_list(b))
    return builtins.bool(s_and(*[p == q for p, q in zip(x.ravel(), y.ravel())]))


def f_clip(a, lo=None, hi=None, out=None, **kw):
    r = a
    if lo is not None:
        r = _np.maximum(r, lo)
    if hi is not None:
        r = _np.minimum(r, hi)
    return r


FUNCS = {
    _np.ascontiguousarray: lambda x, dtype=None, **kw: x if dtype is None else x.astype(dtype),
    _np.where: f_where,
    _np.array_equal: f_array_equal,
    _np.prod: f_prod,
    _np.sum: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: a.sum(axis=axis, dtype=dtype, keepdims=bool(keepdims) if keepdims is not _np._NoValue else False),
    _np.bincount: f_bincount,
    _np.argsort: f_argsort,
    _np.unique: f_unique,
    _np.diff: f_diff,
    _np.cumsum: f_cumsum,
    _np.count_nonzero: f_count_nonzero,
    _np.nan_to_num: f_nan_to_num,
    _np.copyto: f_copyto,
    _np.shape: f_shape,
    _np.around: f_around,
    _np.round: f_around,
    _np.insert: f_insert,
    _np.append: f_append,
    _np.searchsorted: f_searchsorted,
    _np.zeros_like: f_like(0),
    _np.ones_like: f_like(1),
    _np.empty_like: f_like(0),
    _np.full_like: f_like(None),
    _np.max: lambda a, axis=None, **k: a.max(axis=axis),
    _np.min: lambda a, axis=None, **k: a.min(axis=axis),
    _np.amax: lambda a, axis=None, **k: a.max(axis=axis),
    _np.amin: lambda a, axis=None, **k: a.min(axis=axis),
    _np.nanmax: lambda a, axis=None, **k: _nanred(a, _max, axis),
    _np.nanmin: lambda a, axis=None, **k: _nanred(a, _min, axis),
    _np.all: lambda a, axis=None, **k: a.all(axis=axis),
    _np.any: lambda a, axis=None, **k: a.any(axis=axis),
    _np.mean: lambda a, **k: a.mean(**k),
    _np.argmax: lambda a, axis=None, **k: a.argmax(axis),
    _np.argmin: lambda a, axis=None, **k: a.argmin(axis),
    _np.nonzero: lambda a: _np.nonzero(_conc_arr(a != 0)),
    _np.flatnonzero: lambda a: _np.flatnonzero(_conc_arr((a != 0).ravel())),
    _np.isin: f_isin,
    _np.allclose: f_allclose,
    _np.clip: f_clip,
    _np.iscomplexobj: lambda a: a._ldt.kind == "c",
    _np.isrealobj: lambda a: a._ldt.kind != "c",
    _np.may_share_memory: lambda a, b, *k: _np.may_share_memory(raw(a), raw(b)),
    _np.can_cast: lambda a, b, *k, **kw: _np.can_cast(_ldt_of(a), b, *k, **kw),
    _np.result_type: lambda *a: _np.result_type(*[x.dtype if isinstance(x, SymArray) else x for x in a]),
    _np.ndim: lambda a: a.ndim,
    _np.size: lambda a, axis=None: a.size if axis is None else a.shape[axis],
    _np.copy: lambda a, **k: a.copy(),
    _np.real: lambda a: a.real,
    _np.imag: lambda a: a.imag,
    _np.take: lambda a, i, axis=None, **k: a.take(i, axis=axis),
}
STRUCTURAL = {
    _np.concatenate, _np.stack, _np.vstack, _np.hstack, _np.dstack, _np.column_stack,
    _np.reshape, _np.transpose, _np.squeeze, _np.expand_dims, _np.moveaxis, _np.rollaxis,
    _np.swapaxes, _np.flip, _np.fliplr, _np.flipud, _np.rot90, _np.roll, _np.ravel,
    _np.atleast_1d, _np.atleast_2d, _np.atleast_3d, _np.broadcast_to, _np.split,
    _np.array_split, _np.repeat, _np.tile, _np.delete, _np.diagonal, _np.resize,
    _np.broadcast_arrays, _np.pad, _np.block,
}


class MemMap:
    """one open np.memmap over a VFS entry"""

    def __init__(self, path, arr, offset):
        self.path = path
        self.arr = arr
        self.offset = offset
        self.order = "C"

    def _sync_to_file(self):
        a = self.arr
        cs = a._cells(self.order) if isinstance(a, SymArray) else a._cells()
        f = VFS_.files[self.path]
        end = self.offset + len(cs)
        if len(f) < end:
            f.extend([0] * (end - len(f)))
        f[self.offset : end] = cs


class _MemmapMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _np.memmap) or (isinstance(o, (SymArray, SymRec)) and getattr(o, "_src", None) is not None)


class memmap(metaclass=_MemmapMeta):
    def __new__(cls, filename, dtype=_np.uint8, mode="r+", offset=0, shape=None, order="C"):
        f = filename
        path = None
        if isinstance(f, SymFile):
            path, cells = f.name, f.cells
        elif VFS_.has(f):
            path = VFS_.norm(f)
            cells = VFS_.get(path)
        elif isinstance(f, (str, os.PathLike)) and "w" in mode and CTX.active:
            path = VFS_.norm(f)
            VFS_.put(path, [])
            cells = VFS_.files[path]
        else:
            return _np.memmap(filename, dtype=dtype, mode=mode, offset=offset, shape=shape, order=order)
        dt = D(dtype)
        offset = int(offset)
        if offset < 0:
            raise ValueError("negative offset")
        if mode in ("w+", "write"):
            if not isinstance(f, SymFile):
                del cells[:]
        if shape is None:
            nb = len(cells) - offset
            if nb < 0 or nb % dt.itemsize:
                raise ValueError("Size of available data is not a multiple of the data-type size.")
            shape = (nb // dt.itemsize,)
        elif not isinstance(shape, (tuple, list)):
            shape = (int(shape),)
        shape = tuple(int(s) for s in shape)
        n = 1
        for s in shape:
            n *= s
        need = offset + n * dt.itemsize
        if len(cells) < need:
            if mode in ("r", "c", "readonly", "copyonwrite"):
                raise ValueError("mmap length is greater than file size")
            cells.extend([0] * (need - len(cells)))
        if n == 0 and mode in ("r", "c"):
            raise ValueError("cannot mmap an empty file")
        flat = from_cells(cells[offset:need], dt)
        if isinstance(flat, SymRec):
            a = flat.reshape(shape) if order == "C" else flat.reshape(shape, order=order)
        else:
            a = mk(raw(flat).reshape(shape + flat.shape[1:], order=order), flat._ldt)
        if mode in ("r+", "w+", "write", "readwrite"):
            m = MemMap(path, a, offset)
            m.order = order
            VFS_.maps.append(m)
            a._src = m
        else:
            a._src = _RO
        return a


class _RO:
    @staticmethod
    def _sync_to_file():
        pass


# -------------------------------------------------------------- np shim
def _anysym_args(args, kwargs):
    return any(has_sym(a) for a in args) or any(has_sym(a) for a in kwargs.values())


def _loaded(x):
    if CTX.active:
        from . import h5

        if h5.is_dataset(x) and h5.overlaid(x):
            return x[()]
    return x


def zip_data_offset(info, cells):
    h = info.header_offset
    return h + 30 + cells[h + 26] + 256 * cells[h + 27] + cells[h + 28] + 256 * cells[h + 29]


def stored_block(cells, o):
    """length of the single stored block of a deflate stream"""
    h = cells[o:o + 5]
    if len(h) == 5 and h[0] == 1 and h[1] ^ h[3] == 255 and h[2] ^ h[4] == 255:
        return h[1] | h[2] << 8
    return -1


def npy_load(cells, allow_pickle=False):
    import io

    plain = bytes(x if type(x) is int else 0 for x in cells)
    if all(type(x) is int for x in cells):
        return _np.load(io.BytesIO(plain), allow_pickle=allow_pickle)
    b = io.BytesIO(plain)
    v = _np.lib.format.read_magic(b)
    shape, f, dt = {(1, 0): _np.lib.format.read_array_header_1_0, (2, 0): _np.lib.format.read_array_header_2_0, (3, 0): _np.lib.format.read_array_header_2_0}[v](b)
    if dt.hasobject:
        raise Unsupported("symbolic pickle")
    n = int(_np.prod(shape)) * dt.itemsize
    a = from_cells(list(cells[b.tell():b.tell() + n]), dt)
    return a.reshape(shape[::-1]).transpose() if f else a.reshape(shape)


class ZipShim:
    """a zip archive whose stored members may hold symbolic bytes"""

    def __init__(self, file, mode="r", *a, **k):
        import io
        import zipfile

        self._cells = None
        if CTX.active and mode == "r":
            if isinstance(file, SymFile):
                self._cells = list(file.cells)
            elif VFS_.has(file):
                self._cells = list(VFS_.get(file))
        if self._cells is not None:
            file = io.BytesIO(bytes(x if type(x) is int else 0 for x in self._cells))
        self._z = zipfile.ZipFile(file, mode, *a, **k)

    def _member(self, name):
        info = name if hasattr(name, "header_offset") else self._z.getinfo(name)
        if self._cells is None or info.compress_type not in (0, 8):
            return None
        o = zip_data_offset(info, self._cells)
        if info.compress_type == 8:
            if stored_block(self._cells, o) != info.file_size:
                return None
            o += 5
        c = self._cells[o:o + info.file_size]
        return None if all(type(x) is int for x in c) else c

    def open(self, name, *a, **k):
        c = self._member(name)
        return self._z.open(name, *a, **k) if c is None else SymFile(c, None, "rb")

    def read(self, name, *a, **k):
        c = self._member(name)
        return self._z.read(name, *a, **k) if c is None else mkbytes(c)

    def __getattr__(self, n):
        return getattr(self._z, n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._z.close()


class NpzShim:
    def __init__(self, cells, allow_pickle):
        self.zip = ZipShim(SymFile(list(cells), None, "rb"))
        self.files = [n[:-4] if n.endswith(".npy") else n for n in self.zip.namelist()]
        self.allow_pickle = allow_pickle

    def __contains__(self, k):
        return k in self.files or k in self.zip.namelist()

    def __iter__(self):
        return iter(self.files)

    def keys(self):
        return list(self.files)

    def __len__(self):
        return len(self.files)

    def __getitem__(self, k):
        n = k if k in self.zip.namelist() else k + ".npy"
        if n not in self.zip.namelist():
            raise KeyError(k)
        f = self.zip.open(n)
        c = f.cells if isinstance(f, SymFile) else list(f.read())
        return npy_load(c, self.allow_pickle)

    def get(self, k, d=None):
        return self[k] if k in self else d

    def close(self):
        self.zip.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class NPShim:
    """stands for numpy inside the code under test"""

    memmap = memmap

    def __init__(self):
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        v = getattr(_np, name)
        return v

    # .npy and .npz files: headers by numpy itself, the values beside them
    @staticmethod
    def _npy_cells(a, **k):
        import io

        if isinstance(a, SymRec):
            raise Unsupported("npy of records")
        if not isinstance(a, SymArray):
            b = io.BytesIO()
            _np.save(b, _np.asanyarray(a), **k)
            return list(b.getvalue())
        r = raw(a)
        ph = _np.zeros(a.shape, a._ldt, order="F" if r.flags.f_contiguous and not r.flags.c_contiguous else "C")
        b = io.BytesIO()
        _np.save(b, ph, **k)
        head = list(b.getvalue())
        cells = a._cells("F" if _np.isfortran(ph) else "C")
        return (head[:-len(cells)] if cells else head) + cells

    def save(self, file, arr, *a, **k):
        if not CTX.active:
            return _np.save(file, arr, *a, **k)
        if a:
            k["allow_pickle"] = a[0]
        cells = self._npy_cells(arr, **k)
        if isinstance(file, (str, os.PathLike)):
            file = os.fspath(file)
            VFS_.put(file if file.endswith(".npy") else file + ".npy", cells)
        else:
            file.write(mkbytes(cells))

    def savez(self, file, *args, **kw):
        if not CTX.active:
            return _np.savez(file, *args, **kw)
        return self._savez(file, args, kw, False)

    def savez_compressed(self, file, *args, **kw):
        if not CTX.active:
            return _np.savez_compressed(file, *args, **kw)
        return self._savez(file, args, kw, True)

    def _savez(self, file, args, kw, compressed):
        import io
        import zipfile

        k = {"allow_pickle": kw.pop("allow_pickle")} if "allow_pickle" in kw else {}
        for i, v in enumerate(args):
            kw["arr_%d" % i] = v
        mem = {n + ".npy": self._npy_cells(v, **k) for n, v in kw.items()}
        b = io.BytesIO()
        # deflate: a single stored block
        with zipfile.ZipFile(b, "w", 8 if compressed else 0, compresslevel=0) as z:
            for n, c in mem.items():
                z.writestr(n, bytes(x if type(x) is int else 0 for x in c))
        cells = list(b.getvalue())
        for n, c in mem.items():
            o = zip_data_offset(z.getinfo(n), cells)
            if compressed:
                if stored_block(cells, o) != len(c):
                    raise Unsupported("long compressed member")
                o += 5
            cells[o:o + len(c)] = c
        if isinstance(file, (str, os.PathLike)):
            file = os.fspath(file)
            VFS_.put(file if file.endswith(".npz") else file + ".npz", cells)
        else:
            file.write(mkbytes(cells))

    def load(self, file, mmap_mode=None, allow_pickle=False, **k):
        import io
        import zipfile

        if isinstance(file, SymFile):
            cells = file.cells[file.p:]
        elif VFS_.has(file):
            cells = VFS_.get(file)
        else:
            return _np.load(file, mmap_mode=mmap_mode, allow_pickle=allow_pickle, **k)
        if cells[:2] == [80, 75]:
            return NpzShim(cells, allow_pickle)
        return npy_load(cells, allow_pickle)

    def nditer(self, a, *args, **k):
        if not isinstance(a, SymArray):
            return _np.nditer(a, *args, **k)
        if args or k or a.ndim > 1:
            raise Unsupported("nditer with options")
        return iter([a[i] for i in range(a.shape[0])] if a.ndim else [a[()]])

    # constructors that may receive symbolic values afterwards
    @staticmethod
    def _new(shape, dtype, fill, order="C"):
        dt = D(dtype)
        if not isinstance(shape, (tuple, list)):
            shape = (shape,) if not isinstance(shape, SymArray) else tuple(shape.tolist())
        shape = tuple(int(s) for s in shape)
        if any(s < 0 for s in shape):
            raise ValueError("negative dimensions are not allowed")
        if dt.names or dt.subdtype:
            n = int(_np.prod(shape)) if shape else 1
            r = rec_from_cells([0] * (n * dt.itemsize), dt)
            return r.reshape(shape)
        if dt.kind not in "iufbc":
            return None
        o = _np.empty(shape, dtype=object)
        o.fill({"b": False, "f": 0.0, "c": 0j}.get(dt.kind, 0) if fill is None else cast_elem(fill, dt))
        return mk(o, dt)

    def zeros(self, shape, dtype=float, order="C", **kw):
        if not CTX.active:
            return _np.zeros(shape, dtype, order)
        r = self._new(shape, dtype, None, order)
        return _np.zeros(shape, dtype, order) if r is None else r

    def empty(self, shape, dtype=float, order="C", **kw):
        if not CTX.active:
            return _np.empty(shape, dtype, order)
        r = self._new(shape, dtype, None, order)
        return _np.empty(shape, dtype, order) if r is None else r

    def ones(self, shape, dtype=float, order="C", **kw):
        if not CTX.active:
            return _np.ones(shape, dtype, order)
        r = self._new(shape, dtype, 1, order)
        return _np.ones(shape, dtype, order) if r is None else r

    def full(self, shape, fill_value, dtype=None, order="C", **kw):
        if not CTX.active:
            return _np.full(shape, fill_value, dtype, order)
        if dtype is None:
            dtype = guess_dtype(fill_value)
        r = self._new(shape, dtype, fill_value, order)
        return _np.full(shape, fill_value, dtype, order) if r is None else r

    def array(self, x, dtype=None, **kw):
        x = _loaded(x)
        if isinstance(x, SymRec):
            return x.copy()
        if isinstance(x, SymArray):
            r = x.copy() if dtype is None else x.astype(dtype)
        elif has_sym(x):
            dt = D(dtype) if dtype is not None else guess_dtype(x)
            r = mk(wrap_list(x), dt)
            if dtype is not None:
                r = r.astype(dt)
        else:
            return _np.array(x, dtype=dtype, **kw)
        nd = kw.get("ndmin", 0)
        while r.ndim < nd:
            r = r[None]
        return r

    def asarray(self, x, dtype=None, *a, **kw):
        x = _loaded(x)
        if hasattr(x, "__dask_graph__"):
            x = x.compute()
        if isinstance(x, SymRec):
            return x
        if isinstance(x, SymArray):
            return x if dtype is None else x.astype(dtype, copy=False)
        if has_sym(x):
            return self.array(x, dtype)
        return _np.asarray(x, dtype, *a, **kw)

    asanyarray = asarray

    def ascontiguousarray(self, x, dtype=None, **kw):
        if isinstance(x, (SymArray, SymRec)) or has_sym(x):
            return self.asarray(x, dtype)
        return _np.ascontiguousarray(x, dtype)

    asfortranarray = ascontiguousarray

    def fromfile(self, file, dtype=float, count=-1, sep="", offset=0, **kw):
        own = False
        if isinstance(file, (str, os.PathLike)):
            if not VFS_.has(file):
                return _np.fromfile(file, dtype=dtype, count=count, sep=sep, offset=offset)
            file = SymFile(VFS_.get(file), file)
        if not isinstance(file, SymFile):
            return _np.fromfile(file, dtype=dtype, count=count, sep=sep, offset=offset)
        if sep:
            raise Unsupported("text fromfile")
        dt = D(dtype)
        if isinstance(count, SymInt):
            count = CTX.concretize(count)
        count = int(count)
        if offset:
            file.seek(int(offset), 1)
        avail = max(len(file.cells) - file.p, 0) // dt.itemsize
        n = avail if count < 0 else min(count, avail)
        cs = file.cells[file.p : file.p + n * dt.itemsize]
        file.p += n * dt.itemsize
        return from_cells(cs, dt)

    def frombuffer(self, buf, dtype=float, count=-1, offset=0, **kw):
        if isinstance(buf, (SymArray, SymRec)):
            cs = buf._cells()
        elif isinstance(buf, SymBytes):
            cs = buf.c
        elif isinstance(buf, SymFile):
            cs = buf.cells
        elif isinstance(buf, (bytes, bytearray)) and CTX.active:
            cs = list(buf)
        else:
            return _np.frombuffer(buf, dtype=dtype, count=count, offset=offset)
        dt = D(dtype)
        offset = int(offset)
        count = int(count)
        cs = cs[offset:]
        if count < 0:
            if len(cs) % dt.itemsize:
                raise ValueError("buffer size must be a multiple of element size")
            n = len(cs) // dt.itemsize
        else:
            n = count
            if n * dt.itemsize > len(cs):
                raise ValueError("buffer is smaller than requested size")
        if dt.kind in "SU":
            return _np.frombuffer(bytes(mkbytes(cs)), dtype=dt, count=n)
        return from_cells(cs[: n * dt.itemsize], dt)

    def fromstring(self, string, dtype=float, count=-1, *, sep="", **kw):
        if sep:
            if CTX.active and isinstance(string, str) and CTX.tokens:
                parts = string.split() if sep.isspace() else [x.strip() for x in string.split(sep)]
                if any(x in CTX.tokens for x in parts):
                    if parts and parts[-1] == "":
                        parts = parts[:-1]
                    if count >= 0:
                        parts = parts[:count]
                    vals = [CTX.tokens[x] if x in CTX.tokens else _np.dtype(dtype).type(x) for x in parts]
                    return self.array(vals, dtype=dtype)
            return _np.fromstring(string, dtype=dtype, count=count, sep=sep, **kw)
        return self.frombuffer(string, dtype=dtype, count=count)

    def _text(self, fname, encoding=None):
        """text of a file, tokens replaced by numbers of their kind -> text, {number: symbolic value}"""
        import io
        import re

        if hasattr(fname, "read"):
            s = fname.read()
        else:
            with open(fname, "rb") as f:
                s = f.read()
        m = {}

        def rep(x):
            v = CTX.tokens[f"\u00a4{x.group(1).decode()}\u00a4"]
            k = int(x.group(1))
            if isinstance(v, SymInt):
                p = str(8 * 10**14 + k)
            else:
                p = f"{k}.5e150"
            m[float(p)] = v
            return p.encode()

        b = s.encode() if isinstance(s, str) else bytes(s)
        b = re.sub("\u00a4(\\d+)\u00a4".encode(), rep, b)
        s = b.decode() if isinstance(s, str) else b.decode(encoding or "latin1")
        return io.StringIO(s), m

    def _resymbol(self, a, m):
        if a.dtype.names:
            f = {n: self._resymbol(a[n], m) for n in a.dtype.names}
            if not any(isinstance(x, SymArray) for x in f.values()):
                return a
            return SymRec(f, a.dtype, a.shape)
        if a.dtype.kind not in "iuf" or not any(float(x) in m for x in a.ravel()):
            return a
        c = [m.get(float(x), x) for x in a.ravel()]
        if a.dtype.kind == "f":
            c = [to_float(x) if is_sym(x) else x for x in c]
        return self.array(c, dtype=a.dtype).reshape(a.shape)

    def genfromtxt(self, fname, *a, encoding=None, **kw):
        if not CTX.active or not CTX.tokens:
            return _np.genfromtxt(fname, *a, encoding=encoding, **kw)
        t, m = self._text(fname, encoding)
        return self._resymbol(_np.genfromtxt(t, *a, **kw), m)

    def loadtxt(self, fname, *a, unpack=False, **kw):
        if not CTX.active or not CTX.tokens:
            return _np.loadtxt(fname, *a, unpack=unpack, **kw)
        t, m = self._text(fname, kw.get("encoding"))
        r = _np.loadtxt(t, *a, **kw)
        if unpack and r.ndim == 2:
            c = [self._resymbol(x, m) for x in r.T]
            return c
        return self._resymbol(r, m)

    def arange(self, *a, dtype=None, **kw):
        if has_sym(a) and CTX.active:
            a = [CTX.concretize(x) if isinstance(x, SymInt) else x for x in a]
            if any(is_sym(x) for x in a):
                raise Unsupported("arange of symbolic floats")
        return _np.arange(*a, dtype=dtype, **kw)

    def prod(self, a, *k, **kw):
        if has_sym(a):
            return f_prod(a, *k, **kw)
        return _np.prod(a, *k, **kw)

    def round(self, a, decimals=0, out=None):
        if is_sym(a):
            return f_around(a, decimals)
        return _np.round(a, decimals)

    around = round

    def sqrt(self, a, *k, **kw):
        return _np.float64(_sqrt(a)) if is_sym(a) else _np.sqrt(a, *k, **kw)

    def ceil(self, a, *k, **kw):
        return a.__ceil__() if is_sym(a) else _np.ceil(a, *k, **kw)

    def floor(self, a, *k, **kw):
        return a.__floor__() if is_sym(a) else _np.floor(a, *k, **kw)

    def isnan(self, a, *k, **kw):
        return _isnan(a) if is_sym(a) else _np.isnan(a, *k, **kw)

    def isfinite(self, a, *k, **kw):
        return _isfinite(a) if is_sym(a) else _np.isfinite(a, *k, **kw)

    def maximum(self, a, b, *k, **kw):
        return _max(a, b) if is_sym(a) or (is_sym(b) and not isinstance(a, _np.ndarray)) else _np.maximum(a, b, *k, **kw)

    def minimum(self, a, b, *k, **kw):
        return _min(a, b) if is_sym(a) or (is_sym(b) and not isinstance(a, _np.ndarray)) else _np.minimum(a, b, *k, **kw)

    def abs(self, a, *k, **kw):
        return builtins.abs(a) if is_sym(a) else _np.abs(a, *k, **kw)

    absolute = abs

    def isscalar(self, a):
        return True if is_sym(a) else _np.isscalar(a)

    def where(self, c, *xy):
        if has_sym(c) or has_sym(xy):
            return f_where(c, *xy)
        return _np.where(c, *xy)

    def sum(self, a, *k, **kw):
        if isinstance(a, (list, tuple)) and has_sym(a):
            a = self.array(a)
        return _np.sum(a, *k, **kw)

    def max(self, a, *k, **kw):
        if isinstance(a, (list, tuple)) and has_sym(a):
            a = self.array(a)
        return _np.max(a, *k, **kw)

    def min(self, a, *k, **kw):
        if isinstance(a, (list, tuple)) and has_sym(a):
            a = self.array(a)
        return _np.min(a, *k, **kw)

    amax, amin = max, min

    def append(self, a, v, axis=None):
        if has_sym(a) or has_sym(v):
            return f_append(a, v, axis)
        return _np.append(a, v, axis)

    def isin(self, a, t, **kw):
        if has_sym(a) or has_sym(t):
            return f_isin(a, t)
        return _np.isin(a, t, **kw)

    def searchsorted(self, a, v, side="left", sorter=None):
        if has_sym(a) or has_sym(v):
            return f_searchsorted(a, v, side)
        return _np.searchsorted(a, v, side, sorter)

    def shape(self, a):
        return a.shape if hasattr(a, "shape") else _np.shape(a)

    def squeeze(self, a, axis=None):
        return a.squeeze(axis) if isinstance(a, SymRec) else _np.squeeze(a, axis)

    def reshape(self, a, *k, **kw):
        return a.reshape(*k, **kw) if isinstance(a, SymRec) else _np.reshape(self.array(a) if is_sym(a) else a, *k, **kw)

    def vectorize(self, *a, **k):
        raise Unsupported("vectorize")


NP = NPShim()
