"""Symbolic scalars and the path explorer.

The real functions of /repo run in-process on the objects defined here.  A
Python branch on a symbolic condition forks by re-execution: the explorer keeps
a stack of decision prefixes and runs the harness once per feasible path; z3
decides feasibility of every branch and every asserted obligation.

Integers are exact (Python semantics): every SymInt carries an interval
[lo, hi] and a bit-vector just wide enough for it, so no operation ever wraps
unless the code casts to a machine type.
"""

import os
import re
import time
from fractions import Fraction
import math

import z3


class PathEnd(BaseException):
    """The current path is over (infeasible, assumed away, truncated)."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class Unsupported(BaseException):
    """The engine cannot encode what the code does on this path."""


class Stop(BaseException):
    pass


def width_for(lo, hi):
    w = 1
    while not (-(1 << (w - 1)) <= lo and hi < (1 << (w - 1))):
        w += 1
    return w


SLOW = float(os.environ.get("SYMEX_SLOW", 0))
FORKLOG = {} if os.environ.get("SYMEX_FORKS") else None


class Context:
    def __init__(self):
        self.query_timeout_ms = 60000
        self.reset_all()

    def reset_all(self):
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.truncated = 0
        self.concretised = 0
        self.solver = None
        self.in_numba = 0
        self.deadline = None
        self.fork_limit = 300
        self.tokens = {}
        self.trace = None
        self.active = False
        self.lin = {}

    # --- one run -----------------------------------------------------------
    def start(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.new = []
        self.counter = {}
        # bit-vector conditions go to a pure bit-vector solver; the general one
        # holds everything and is asked only where floating point matters
        self.solver = None
        self.bv = z3.SolverFor("QF_BV")
        self.bv.set("timeout", self.query_timeout_ms)
        self.last = self.bv
        self.pcfp = []
        self.fpseen = {}
        self.pc = []
        self.model = None
        self.in_numba = 0
        self.tokens = {}
        self.side = []
        self.lin = {}
        self.fbits = {}
        self.nanforks = 0
        self.forked = 0
        self.fvals = {}
        self.ivals = {}

    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def add(self, cond):
        self.pc.append(cond)
        if self.hasfp(cond):
            self.pcfp.append(cond)
        else:
            self.bv.add(cond)
        if self.solver is not None:
            self.solver.add(cond)
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def hasfp(self, e):
        """does the term mention floating-point operations?"""
        seen = self.fpseen
        k = e.get_id()
        if k in seen:
            return seen[k][1]
        stack = [e]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in seen:
                stack.pop()
                continue
            kids = x.children()
            if z3.is_fp_sort(x.sort()) or any(z3.is_fp_sort(c.sort()) for c in kids):
                seen[i] = (x, True)
                stack.pop()
                continue
            todo = [c for c in kids if c.get_id() not in seen]
            if todo:
                stack += todo
                continue
            seen[i] = (x, any(seen[c.get_id()][1] for c in kids))
            stack.pop()
        return seen[k][1]

    def check(self, *conds):
        if self.deadline is not None and time.time() > self.deadline:
            raise Stop("time budget")
        t = time.time()
        fp = any(self.hasfp(c) for c in conds)
        r = z3.unknown
        if not fp:
            self.last = self.bv
            r = self.bv.check(*conds)
        if fp or self.pcfp and r != z3.unsat:
            if self.solver is None:
                self.solver = z3.Solver()
                self.solver.set("timeout", self.query_timeout_ms)
                self.solver.add(*self.pc)
            self.last = self.solver
            r = self.solver.check(*conds)
        self.solver_s += time.time() - t
        if SLOW and time.time() - t > SLOW:
            import traceback, sys

            print("SLOW %.1f %s" % (time.time() - t, r), " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_stack()[-12:-1][::-1]), file=sys.stderr)
        self.queries += 1
        if r == z3.unknown:
            self.unknown += 1
        return r

    def feasible(self, cond):
        """sat / unsat / unknown of pc and cond, reusing the last model."""
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if z3.is_true(v):
                return z3.sat
        r = self.check(cond)
        if r == z3.sat:
            self.model = self.last.model()
        return r

    def branch(self, cond):
        cond = z3.simplify(cond)
        self.forked = 0
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.forked = 1
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append((kind, val))
            self.add(cond if val else z3.Not(cond))
            return val
        self.pos += 1
        neg = z3.Not(cond)
        a = self.feasible(cond)
        b = self.feasible(neg)
        if a == z3.unknown and b == z3.unknown:
            raise PathEnd("solver gave no answer at a branch")
        ta, tb = a != z3.unsat, b != z3.unsat
        if not ta and not tb:
            raise PathEnd("infeasible")
        if ta and tb:
            if FORKLOG is not None:
                import traceback

                k = " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_stack()[-9:-1][::-1])
                FORKLOG[k] = FORKLOG.get(k, 0) + 1
            self.new.append(self.decisions + [("b", False)])
            val = True
        else:
            val = ta
        self.decisions.append(("b", val))
        self.add(cond if val else neg)
        return val

    def concretize(self, s):
        """Fork over the feasible values of a SymInt (complete up to the
        fork limit; beyond it the rest of the values is dropped and counted)."""
        t = z3.simplify(s.t)
        if z3.is_bv_value(t):
            return t.as_signed_long()
        n = 0
        while True:
            if self.pos < len(self.prefix):
                kind, val = self.prefix[self.pos]
                v, took = val
                self.pos += 1
                self.decisions.append((kind, val))
                c = s.t == z3.BitVecVal(v, s.t.size())
                self.add(c if took else z3.Not(c))
                if took:
                    return v
                n += 1
                continue
            if self.model is None:
                r = self.check()
                if r != z3.sat:
                    raise PathEnd("infeasible" if r == z3.unsat else "no answer")
                self.model = self.last.model()
            v = self.model.eval(s.t, model_completion=True).as_signed_long()
            c = s.t == z3.BitVecVal(v, s.t.size())
            other = self.check(z3.Not(c))
            self.pos += 1
            if other != z3.unsat:
                if FORKLOG is not None:
                    import traceback

                    k = "conc " + " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_stack()[-9:-1][::-1])
                    FORKLOG[k] = FORKLOG.get(k, 0) + 1
                if n < self.fork_limit:
                    self.new.append(self.decisions + [("c", (v, False))])
                else:
                    self.truncated += 1
            self.decisions.append(("c", (v, True)))
            self.add(c)
            return v

    def token(self, obj):
        k = f"\u00a4{len(self.tokens)}\u00a4"
        self.tokens[k] = obj
        return k


CTX = Context()


def fmt_num(x, spec):
    """text of a symbolic number: a token standing for it. Where the format
    drops digits the token stands for an unconstrained number instead."""
    conv = spec[-1:]
    if conv == "%" or (conv and conv not in "sridgGeEfF"):
        return format(CTX.concretize(x) if isinstance(x, SymInt) else float(x), spec)
    if conv in ("", "s", "r", "i", "d") and not re.search(r"\d|[+ ,]", spec[:-1]):
        return CTX.token(x)
    if conv == "d":
        return format(CTX.concretize(x) if isinstance(x, SymInt) else int(x), spec)
    m = re.search(r"\.(\d+)", spec)
    p = int(m[1]) if m else 6
    lim = 2 ** 53 if conv in "fF" else 10 ** (max(p, 1) if conv in "gG" else p + 1)
    if isinstance(x, SymInt):
        if bool(s_and(x < lim, x > -lim)):
            return CTX.token(x)
    elif p >= 17 and conv in "gGeE":
        return CTX.token(x)
    return CTX.token(SymFloat(z3.FP(CTX.fresh("text"), z3.Float64())))


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymFloat, SymFrac, SymComplex))


# ---------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return CTX.branch(self.b)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.And(self.b, o.b))
        if isinstance(o, bool) or type(o).__name__ in ("bool", "bool_"):
            return self if o else False
        return mkint(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Or(self.b, o.b))
        if isinstance(o, bool) or type(o).__name__ in ("bool", "bool_"):
            return True if o else self
        return mkint(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Xor(self.b, o.b))
        if isinstance(o, bool):
            return mkbool(z3.Not(self.b)) if o else self
        return mkint(self) ^ o

    def __invert__(self):
        return mkbool(z3.Not(self.b))

    def logical_not(self):
        return mkbool(z3.Not(self.b))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.b == o.b)
        if isinstance(o, bool):
            return self if o else ~self
        return mkint(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bool(self))

    def _i(self):
        return mkint(self)

    def __add__(self, o):
        return mkint(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return mkint(self) - o

    def __rsub__(self, o):
        return o - mkint(self)

    def __mul__(self, o):
        return mkint(self) * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return mkint(self) < o

    def __gt__(self, o):
        return mkint(self) > o

    def __le__(self, o):
        return mkint(self) <= o

    def __ge__(self, o):
        return mkint(self) >= o

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "SymBool(%s)" % str(self.b)[:60]


def mkbool(b):
    b = z3.simplify(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return SymBool(b)


def zbool(x):
    if isinstance(x, SymBool):
        return x.b
    return z3.BoolVal(bool(x))


def s_and(*xs):
    xs = [x for x in xs if not (x is True)]
    if any(x is False for x in xs):
        return False
    return mkbool(z3.And(*[zbool(x) for x in xs])) if xs else True


def s_or(*xs):
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if not (x is False)]
    return mkbool(z3.Or(*[zbool(x) for x in xs])) if xs else False


def s_not(x):
    if isinstance(x, SymBool):
        return ~x
    return not x


# ---------------------------------------------------------------- integers
def _np_int(x):
    """Concrete Python int of x, or None."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    try:
        import numpy as np

        if isinstance(x, (np.integer, np.bool_)):
            return int(x)
    except Exception:
        pass
    return None


class SymInt:
    """Exact integer.  ``ldt`` (a numpy integer dtype) is set when the value
    stands for a numpy scalar, whose arithmetic wraps under NEP 50."""

    __slots__ = ("t", "lo", "hi", "ldt")

    def __init__(self, t, lo, hi, ldt=None):
        self.t = t
        self.lo = lo
        self.hi = hi
        self.ldt = ldt

    # -- helpers
    def at(self, w):
        d = w - self.t.size()
        if d > 0:
            return z3.SignExt(d, self.t)
        if d < 0:
            return z3.Extract(w - 1, 0, self.t)
        return self.t

    def _npdt(self, o):
        """result dtype of arithmetic with o, or None"""
        import numpy as np

        a = self.ldt
        b = getattr(o, "ldt", None)
        if isinstance(o, np.generic):
            b = o.dtype
        if a is None and b is None:
            return None
        if a is None:
            return b if b.kind in "ui" else None
        if b is None:
            return a if a.kind in "ui" else None
        r = np.promote_types(a, b)
        return r

    def _arith(self, o, f):
        import numpy as np

        dt = self._npdt(o)
        r = f(self, o)
        if dt is not None:
            if dt.kind in "ui":
                if isinstance(r, SymInt):
                    return wrap_int(r, dt, ldt=dt)
                return wrap_concrete(r, dt)
            if dt.kind == "f":
                return to_float(r)
        return r

    def __add__(self, o):
        if not _intlike(o):
            return _float_dispatch(self, o, "add")
        return self._arith(o, _iadd)

    def __radd__(self, o):
        if not _intlike(o):
            return _float_dispatch(o, self, "add")
        return self._arith(o, _iadd)

    def __sub__(self, o):
        if not _intlike(o):
            return _float_dispatch(self, o, "sub")
        return self._arith(o, _isub)

    def __rsub__(self, o):
        if not _intlike(o):
            return _float_dispatch(o, self, "sub")
        return self._arith(o, lambda a, b: _isub(b, a))

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * CTX.concretize(self)
        if not _intlike(o):
            return _float_dispatch(self, o, "mul")
        return self._arith(o, _imul)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if not _intlike(o):
            return _float_dispatch(self, o, "floordiv")
        return self._arith(o, lambda a, b: _idivmod(a, b)[0])

    def __rfloordiv__(self, o):
        if not _intlike(o):
            return _float_dispatch(o, self, "floordiv")
        return self._arith(o, lambda a, b: _idivmod(b, a)[0])

    def __mod__(self, o):
        if not _intlike(o):
            return _float_dispatch(self, o, "mod")
        return self._arith(o, lambda a, b: _idivmod(a, b)[1])

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return self._arith(o, lambda a, b: _idivmod(b, a)[1])

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return _float_dispatch(self, o, "div")

    def __rtruediv__(self, o):
        return _float_dispatch(o, self, "div")

    def __pow__(self, o, m=None):
        if isinstance(o, SymInt):
            o = CTX.concretize(o)
        n = _np_int(o)
        if n is None or n < 0:
            return _float_dispatch(self, o, "pow")
        r = 1
        for _ in range(n):
            r = self * r
        return r

    def __rpow__(self, o):
        e = CTX.concretize(self)
        return o**e

    def __neg__(self):
        return self._arith(0, lambda a, b: _isub(0, a))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return ite(self < 0, -self, self)

    def __invert__(self):
        return self._arith(0, lambda a, b: _isub(-1, a))

    def _bit(self, o, name):
        if isinstance(o, SymBool):
            o = mkint(o)
        a, b = lift(self), lift(o)
        lo, hi = _bit_bounds(a, b, name)
        w = max(a.t.size(), b.t.size(), width_for(lo, hi))
        x, y = a.at(w), b.at(w)
        r = {"and": x & y, "or": x | y, "xor": x ^ y}[name]
        return norm(r, lo, hi)

    def __and__(self, o):
        return self._arith(o, lambda a, b: SymInt._bit(a, b, "and"))

    __rand__ = __and__

    def __or__(self, o):
        return self._arith(o, lambda a, b: SymInt._bit(a, b, "or"))

    __ror__ = __or__

    def __xor__(self, o):
        return self._arith(o, lambda a, b: SymInt._bit(a, b, "xor"))

    __rxor__ = __xor__

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = CTX.concretize(o)
        n = int(o)
        return self._arith(1, lambda a, b: _imul(a, 1 << n))

    def __rlshift__(self, o):
        n = CTX.concretize(self)
        return o << n

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = CTX.concretize(o)
        n = int(o)
        w = self.t.size()
        if n >= w:
            return ite(self < 0, -1, 0)
        return norm(self.t >> n, self.lo >> n, self.hi >> n, ldt=self.ldt)

    def __rrshift__(self, o):
        n = CTX.concretize(self)
        return o >> n

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = mkint(o)
        if not _intlike(o):
            return _float_cmp(self, o, op)
        c = _np_int(o)
        if c is not None:
            olo = ohi = c
        else:
            olo, ohi = o.lo, o.hi
        if op == "lt":
            if self.hi < olo:
                return True
            if self.lo >= ohi:
                return False
        elif op == "le":
            if self.hi <= olo:
                return True
            if self.lo > ohi:
                return False
        elif op == "eq":
            if self.hi < olo or self.lo > ohi:
                return False
        b = lift(o)
        fa, fb = _lin(self), _lin(b)
        d = _lcomb(fa, 1, fb, -1)
        if not d[1]:
            return {"lt": d[0] < 0, "le": d[0] <= 0, "eq": d[0] == 0}[op]
        if len(d[1]) < len(fa[1]) + len(fb[1]) or len(fa[1]) + len(fb[1]) == 1 and len(d[1]) == 1:
            lo, hi = _lbounds(d)
            if op == "lt" and (hi < 0 or lo >= 0):
                return hi < 0
            if op == "le" and (hi <= 0 or lo > 0):
                return hi <= 0
            if op == "eq" and (hi < 0 or lo > 0):
                return False
            g = math.gcd(*[c for c, _ in d[1].values()])
            if op == "eq" and d[0] % g:
                return False
            if op == "eq" and g > 1:
                d = (d[0] // g, {i: (c // g, s) for i, (c, s) in d[1].items()})
            pos = (max(d[0], 0), {i: v for i, v in d[1].items() if v[0] > 0})
            neg = (max(-d[0], 0), {i: (-v[0], v[1]) for i, v in d[1].items() if v[0] < 0})
            (pl, ph), (nl, nh) = _lbounds(pos), _lbounds(neg)
            w = width_for(min(pl, nl), max(ph, nh))
            x, y = _lterm(pos, w), _lterm(neg, w)
            return mkbool({"lt": x < y, "le": x <= y, "eq": x == y}[op])
        w = max(self.t.size(), b.t.size())
        x, y = self.at(w), b.at(w)
        return mkbool({"lt": x < y, "le": x <= y, "eq": x == y}[op])

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return s_not(self._cmp(o, "le"))

    def __ge__(self, o):
        return s_not(self._cmp(o, "lt"))

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, list, tuple, dict, type)):
            return False
        if hasattr(o, "__array_ufunc__") and getattr(o, "ndim", 0):
            return NotImplemented
        return self._cmp(o, "eq")

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return s_not(r)

    def __hash__(self):
        return hash(CTX.concretize(self))

    def __bool__(self):
        r = self._cmp(0, "eq")
        return not bool(r)

    def __index__(self):
        return CTX.concretize(self)

    __int__ = __index__

    def __float__(self):
        return float(CTX.concretize(self))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __ceil__(self):
        return self

    def __floor__(self):
        return self

    def __str__(self):
        return CTX.token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return fmt_num(self, spec)

    # numpy-scalar look-alikes
    def item(self):
        return SymInt(self.t, self.lo, self.hi)

    def is_integer(self):
        return True

    @property
    def dtype(self):
        if self.ldt is None:
            raise AttributeError("dtype")
        return self.ldt

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def shape(self):
        if self.ldt is None:
            raise AttributeError("shape")
        return ()

    def astype(self, dt):
        from .arr import cast_elem, D

        dt = D(dt)
        r = cast_elem(self, dt)
        if isinstance(r, SymInt):
            return SymInt(r.t, r.lo, r.hi, dt)
        return r

    def squeeze(self):
        return self

    def tolist(self):
        return self.item()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from .sbytes import int_to_bytes

        return int_to_bytes(self, length, byteorder, signed)

    def bit_length(self):
        return CTX.concretize(self).bit_length()

    def __array__(self, dtype=None, copy=None):
        import numpy as np

        a = np.empty((), dtype=object)
        a[()] = self
        return a

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (_restore, (CTX.token(self),))


def _restore(tok):
    return CTX.tokens[tok]


def _intlike(o):
    return isinstance(o, (SymInt, SymBool)) or _np_int(o) is not None


def lift(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return mkint_sym(x)
    n = _np_int(x)
    if n is None:
        raise Unsupported(f"cannot lift {type(x)} to integer")
    return SymInt(z3.BitVecVal(n, width_for(n, n)), n, n)


def mkint_sym(b):
    return SymInt(z3.If(b.b, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)


def mkint(b):
    return mkint_sym(b) if isinstance(b, SymBool) else b


def norm(t, lo, hi, ldt=None):
    """SymInt (or int) from a term known to lie in [lo, hi]."""
    if lo == hi:
        return lo if ldt is None else wrap_concrete(lo, ldt)
    w = width_for(lo, hi)
    if t.size() > w:
        t = z3.Extract(w - 1, 0, t)
    elif t.size() < w:
        t = z3.SignExt(w - t.size(), t)
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        v = t.as_signed_long()
        return v if ldt is None else wrap_concrete(v, ldt)
    return SymInt(t, lo, hi, ldt)


# Linear forms of exact integers, kept beside the terms: sums whose parts
# cancel are recognised without asking the solver.
def _lin(a):
    """(constant, {atom id: (coefficient, SymInt)}) of a SymInt"""
    r = CTX.lin.get(a.t.get_id())
    if r is not None:
        return r[1]
    if z3.is_bv_value(a.t):
        return (a.t.as_signed_long(), {})
    t = _strip(a.t)
    if t is not a.t:
        lo, hi = a.lo, a.hi
        m = 1 << (t.size() - 1)
        a = SymInt(t, max(lo, -m), min(hi, m - 1))
    f = (0, {a.t.get_id(): (1, a)})
    CTX.lin[t.get_id()] = (t, f)
    return f


def _strip(t):
    """the term without redundant sign bits"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SIGN_EXT:
        return _strip(t.arg(0))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_CONCAT:
        k, n = 0, t.num_args()
        b = t.arg(0)
        if not z3.is_app(b) or b.decl().kind() != z3.Z3_OP_EXTRACT or b.size() != 1:
            return t
        while k + 1 < n and z3.eq(t.arg(k + 1), b):
            k += 1
        rest = [t.arg(i) for i in range(k + 1, n)]
        if rest:
            r = rest[0] if len(rest) == 1 else z3.simplify(z3.Concat(*rest))
            m = r.size() - 1
            if z3.eq(z3.simplify(z3.Extract(m, m, r)), b):
                return _strip(r)
        if k:
            r = z3.simplify(z3.Concat(b, *rest) if rest else b)
            return r
    return t


def _lcomb(fa, ka, fb, kb):
    at = {i: (c * ka, s) for i, (c, s) in fa[1].items()}
    for i, (c, s) in fb[1].items():
        c0 = at[i][0] if i in at else 0
        at[i] = (c0 + c * kb, s)
    return (fa[0] * ka + fb[0] * kb, {i: v for i, v in at.items() if v[0]})


def _lbounds(f):
    lo = hi = f[0]
    for c, s in f[1].values():
        lo += c * (s.lo if c > 0 else s.hi)
        hi += c * (s.hi if c > 0 else s.lo)
    return lo, hi


def _lterm(f, w):
    t = z3.BitVecVal(f[0], w)
    for i in sorted(f[1]):
        c, s = f[1][i]
        x = s.at(w)
        t = t + (x if c == 1 else x * z3.BitVecVal(c, w))
    return t


def _lres(f, lo, hi):
    """SymInt of a linear form known to lie in [lo, hi]"""
    l, h = _lbounds(f)
    lo, hi = max(lo, l), min(hi, h)
    if not f[1]:
        return f[0]
    if f[0] == 0 and len(f[1]) == 1:
        c, s = next(iter(f[1].values()))
        if c == 1:
            return SymInt(s.t, s.lo, s.hi)
    r = norm(_lterm(f, width_for(lo, hi)), lo, hi)
    if isinstance(r, SymInt) and len(f[1]) <= 8:
        CTX.lin[r.t.get_id()] = (r.t, f)
    return r


def _iadd(a, b):
    a, b = lift(a), lift(b)
    lo, hi = a.lo + b.lo, a.hi + b.hi
    return _lres(_lcomb(_lin(a), 1, _lin(b), 1), lo, hi)


def _isub(a, b):
    a, b = lift(a), lift(b)
    lo, hi = a.lo - b.hi, a.hi - b.lo
    return _lres(_lcomb(_lin(a), 1, _lin(b), -1), lo, hi)


def _imul(a, b):
    a, b = lift(a), lift(b)
    c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
    lo, hi = min(c), max(c)
    for x, y in ((a, b), (b, a)):
        if z3.is_bv_value(x.t):
            return _lres(_lcomb(_lin(y), x.t.as_signed_long(), (0, {}), 0), lo, hi)
    w = width_for(lo, hi)
    return norm(a.at(w) * b.at(w), lo, hi)


def _idivmod(a, b):
    a, b = lift(a), lift(b)
    if b.lo <= 0 <= b.hi:
        if bool(SymInt._cmp(b, 0, "eq")) if b.lo != b.hi else True:
            raise ZeroDivisionError("integer division or modulo by zero")
    # floor semantics
    if b.lo == b.hi and b.lo > 0 and (b.lo & (b.lo - 1)) == 0:
        n = b.lo.bit_length() - 1
        q = norm(a.t >> n if n < a.t.size() else a.at(n + 2) >> n, a.lo >> n, a.hi >> n)
        w = max(a.t.size(), n + 2)
        r = norm(a.at(w) & z3.BitVecVal(b.lo - 1, w), 0, min(b.lo - 1, a.hi if a.lo >= 0 else b.lo - 1))
        return q, r
    w = max(a.t.size(), b.t.size()) + 1
    x, y = a.at(w), b.at(w)
    if a.lo >= 0 and b.lo >= 0:
        q = z3.UDiv(x, y)
        r = z3.URem(x, y)
        bl = max(b.lo, 1)
        return norm(q, a.lo // max(b.hi, 1), a.hi // bl), norm(r, 0, min(a.hi, max(b.hi - 1, 0)))
    q0 = x / y
    r0 = z3.SRem(x, y)
    adj = z3.And(r0 != 0, (r0 < 0) != (y < 0))
    q = z3.If(adj, q0 - 1, q0)
    r = z3.If(adj, r0 + y, r0)
    m = max(abs(a.lo), abs(a.hi))
    rl = 0 if b.lo >= 0 else b.lo + 1
    rh = max(b.hi - 1, 0) if b.hi > 0 else 0
    return norm(q, -m - 1, m + 1), norm(r, min(rl, 0), max(rh, 0))


def _bit_bounds(a, b, name):
    if name == "and":
        if a.lo >= 0 and b.lo >= 0:
            return 0, min(a.hi, b.hi)
        if a.lo >= 0:
            return 0, a.hi
        if b.lo >= 0:
            return 0, b.hi
    if a.lo >= 0 and b.lo >= 0:
        k = max(a.hi, b.hi).bit_length()
        return 0, (1 << k) - 1
    k = max(width_for(a.lo, a.hi), width_for(b.lo, b.hi))
    return -(1 << (k - 1)), (1 << (k - 1)) - 1


def int_range(dt):
    n = dt.itemsize * 8
    if dt.kind == "b":
        return 0, 1
    if dt.kind == "u":
        return 0, (1 << n) - 1
    return -(1 << (n - 1)), (1 << (n - 1)) - 1


def round_mant(s, mant):
    """integer nearest to s with at most ``mant`` significant bits (ties to
    even): the value of an int -> float conversion"""
    top = max(abs(s.lo), abs(s.hi))
    if top <= 1 << mant:
        return s
    w = top.bit_length() + 2
    t = s.at(w)
    neg = t < 0
    a = z3.If(neg, -t, t)
    r = a
    for k in range(1, top.bit_length() - mant + 1):
        half = z3.BitVecVal((1 << (k - 1)) - 1, w)
        odd = z3.ZeroExt(w - 1, z3.Extract(k, k, a))
        q = z3.LShR(a + half + odd, k) << k
        r = z3.If(z3.UGE(a, z3.BitVecVal(1 << (mant + k - 1), w)), q, r)
    q = 1 << (top.bit_length())
    return norm(z3.If(neg, -r, r), -q if s.lo < 0 else 0, q)


def wrap_int(s, dt, ldt=None):
    """machine cast of an exact integer to integer dtype dt"""
    if isinstance(s, SymBool):
        s = mkint(s)
    if not isinstance(s, SymInt):
        n = int(s)
        lo, hi = int_range(dt)
        v = (n - lo) % (hi - lo + 1) + lo
        return v if ldt is None else wrap_concrete(v, dt)
    lo, hi = int_range(dt)
    if lo <= s.lo and s.hi <= hi:
        return SymInt(s.t, s.lo, s.hi, ldt)
    n = dt.itemsize * 8
    low = z3.Extract(n - 1, 0, s.at(max(n, s.t.size())))
    if dt.kind == "u":
        low = z3.ZeroExt(1, low)
    return norm(low, lo, hi, ldt)


def wrap_concrete(n, dt):
    lo, hi = int_range(dt)
    v = (int(n) - lo) % (hi - lo + 1) + lo
    return dt.type(v)


def ite(c, a, b):
    """if-then-else over scalars"""
    if isinstance(c, bool):
        return a if c else b
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, float) and a != a and isinstance(b, (SymFrac, SymInt)):
        # keeps exact arithmetic where NaN cannot occur
        if CTX.nanforks < 9:
            r = CTX.branch(c.b)
            CTX.nanforks += CTX.forked
            return a if r else b
        if CTX.feasible(c.b) == z3.unsat:
            return b
    if _is_boolish(a) and _is_boolish(b):
        return mkbool(z3.If(c.b, zbool(a), zbool(b)))
    if _intlike(a) and _intlike(b):
        x, y = lift(a), lift(b)
        lo, hi = min(x.lo, y.lo), max(x.hi, y.hi)
        w = width_for(lo, hi)
        return norm(z3.If(c.b, x.at(w), y.at(w)), lo, hi, getattr(a, "ldt", None))
    if isinstance(a, SymBits) and isinstance(b, SymBits) and a.fmt == b.fmt:
        return SymBits(z3.If(c.b, a.bits, b.bits), a.fmt)
    if isinstance(a, SymComplex) or isinstance(b, SymComplex):
        return SymComplex(ite(c, a.real, b.real), ite(c, a.imag, b.imag))
    fa, fb = to_float(a), to_float(b)
    if isinstance(fa, SymFrac) and isinstance(fb, SymFrac):
        if isinstance(fa.den, int) and fa.den == fb.den:
            return SymFrac(ite(c, fa.num, fb.num), fa.den)
    return SymFloat(z3.If(c.b, fp_term(fa), fp_term(fb)))


def _is_boolish(a):
    return isinstance(a, (bool, SymBool)) or type(a).__name__ in ("bool_",)


# ---------------------------------------------------------------- reals
RNE = z3.RNE()
F64 = z3.Float64()


def to_float(x):
    if isinstance(x, (SymFloat, SymFrac)):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return SymFrac(mkint(x) if isinstance(x, SymBool) else SymInt(x.t, x.lo, x.hi), 1)
    return float(x)


def fp_term(x):
    """z3 Float64 term"""
    if isinstance(x, SymFloat):
        return x.f
    if isinstance(x, SymFrac):
        n = fp_int(x.num)
        if isinstance(x.den, int) and x.den == 1:
            return n
        return z3.fpDiv(RNE, n, fp_int(x.den))
    if isinstance(x, (SymInt, SymBool)):
        return fp_int(x)
    return z3.FPVal(float(x), F64)


def fp_int(n):
    if isinstance(n, SymBool):
        n = mkint(n)
    if isinstance(n, SymInt):
        return z3.fpSignedToFP(RNE, n.t, F64)
    return z3.FPVal(int(n), F64)


def _small_frac(x):
    """Fraction of a float that is a modest dyadic rational, else None."""
    if isinstance(x, Fraction):
        return x
    n = _np_int(x)
    if n is not None:
        return Fraction(n)
    try:
        v = float(x)
    except Exception:
        return None
    if math.isinf(v) or math.isnan(v):
        return None
    f = Fraction(v)
    if f.denominator <= 4096 and abs(f.numerator) < 2**40:
        return f
    return None


def _float_dispatch(a, b, op):
    if isinstance(a, (SymComplex, complex)) or isinstance(b, (SymComplex, complex)):
        return cplx_op(a, b, op)
    for x in (a, b):
        if not (is_sym(x) or isinstance(x, (float, int, Fraction)) or _np_scalar(x)):
            return NotImplemented
    fa, fb = _as_frac(a), _as_frac(b)
    if fa is not None and fb is not None:
        r = _frac_op(fa, fb, op)
        if r is not None:
            return r
    x, y = fp_term(a), fp_term(b)
    if op == "add":
        return SymFloat(z3.fpAdd(RNE, x, y))
    if op == "sub":
        return SymFloat(z3.fpSub(RNE, x, y))
    one = [not is_sym(q) and float(q) == 1.0 for q in (a, b)]
    if op == "mul":
        if any(one):
            return SymFloat(y if one[0] else x)
        return SymFloat(z3.fpMul(RNE, x, y))
    if op == "div":
        return SymFloat(x) if one[1] else SymFloat(z3.fpDiv(RNE, x, y))
    if op == "pow" and _np_int(b) is not None and 0 <= _np_int(b) <= 4:
        r = SymFloat(z3.FPVal(1.0, F64))
        for _ in range(_np_int(b)):
            r = r * a
        return r
    if op == "floordiv":
        q = SymFloat(z3.fpDiv(RNE, x, y))
        return SymFloat(z3.fpRoundToIntegral(z3.RTN(), q.f))
    if op == "pow":
        fa, fb = _small_value(a), _small_value(b)
        if fa is not None and fb is not None:
            return fa ** fb
    raise Unsupported(f"float {op}")


def _small_value(x):
    """value of an operand with few values, forking over them"""
    if not is_sym(x):
        return float(x)
    f = _as_frac(x)
    if f is None:
        return None
    for v in (f.num, f.den):
        if isinstance(v, SymInt) and v.hi - v.lo > 2**20:
            return None
    n, d = [int(v.__index__()) if is_sym(v) else int(v) for v in (f.num, f.den)]
    return n / d


def _np_scalar(x):
    import numpy as np

    return isinstance(x, (np.floating, np.integer, np.bool_))


def _as_frac(x):
    if isinstance(x, SymFrac):
        return x
    if isinstance(x, (SymInt, SymBool)):
        x = mkint(x)
        return SymFrac(SymInt(x.t, x.lo, x.hi), 1)
    if isinstance(x, (SymFloat, SymComplex)):
        return None
    f = _small_frac(x)
    if f is not None:
        return SymFrac(f.numerator, f.denominator)
    return None


def _frac_op(a, b, op):
    def mul(p, q):
        return p * q

    if op in ("add", "sub"):
        n1, n2 = mul(a.num, b.den), mul(b.num, a.den)
        if isinstance(a.den, int) and isinstance(b.den, int) and a.den == b.den:
            return mkfrac((a.num + b.num) if op == "add" else (a.num - b.num), a.den)
        return mkfrac(n1 + n2 if op == "add" else n1 - n2, mul(a.den, b.den))
    if op == "mul":
        return mkfrac(mul(a.num, b.num), mul(a.den, b.den))
    if op in ("div", "floordiv", "mod"):
        bz = b.num == 0
        if bool(bz):
            if op == "div":
                raise ZeroDivisionError("division by zero")
            raise ZeroDivisionError("float floor division by zero")
        n, d = mul(a.num, b.den), mul(a.den, b.num)
        neg = d < 0
        if isinstance(neg, SymBool):
            neg = bool(neg)
        if neg:
            n, d = 0 - n, 0 - d
        if op == "div":
            return mkfrac(n, d)
        q = _exact_floordiv(n, d)
        if op == "floordiv":
            return mkfrac(q, 1)
        return _frac_op(a, _frac_op(mkfrac(q, 1), b, "mul"), "sub")
    if op == "pow":
        e = b.num if isinstance(b.num, int) and b.den == 1 else None
        if e is not None and 0 <= e <= 4:
            r = SymFrac(1, 1)
            for _ in range(e):
                r = _frac_op(r, a, "mul")
            return r
    return None


def _exact_floordiv(n, d):
    if is_sym(n) or is_sym(d):
        return _idivmod(n, d)[0]
    return n // d


def mkfrac(n, d):
    if not is_sym(n) and not is_sym(d):
        return float(Fraction(int(n), int(d)))
    if isinstance(d, int) and d != 1:
        if isinstance(n, SymInt):
            g = d & -d
            # nothing: keep the fraction unreduced
    return SymFrac(n, d)


class SymFrac:
    """Exact rational num/den (den > 0): a float computed from integers,
    idealised (binary64 rounding of non-dyadic quotients is not modelled)."""

    __slots__ = ("num", "den")

    def __init__(self, num, den):
        self.num = num
        self.den = den

    def __add__(self, o):
        return _float_dispatch(self, o, "add")

    def __radd__(self, o):
        return _float_dispatch(o, self, "add")

    def __sub__(self, o):
        return _float_dispatch(self, o, "sub")

    def __rsub__(self, o):
        return _float_dispatch(o, self, "sub")

    def __mul__(self, o):
        return _float_dispatch(self, o, "mul")

    def __rmul__(self, o):
        return _float_dispatch(o, self, "mul")

    def __truediv__(self, o):
        return _float_dispatch(self, o, "div")

    def __rtruediv__(self, o):
        return _float_dispatch(o, self, "div")

    def __floordiv__(self, o):
        return _float_dispatch(self, o, "floordiv")

    def __rfloordiv__(self, o):
        return _float_dispatch(o, self, "floordiv")

    def __mod__(self, o):
        return _float_dispatch(self, o, "mod")

    def __rmod__(self, o):
        return _float_dispatch(o, self, "mod")

    def __pow__(self, o):
        return _float_dispatch(self, o, "pow")

    def __neg__(self):
        return SymFrac(0 - self.num, self.den)

    def __abs__(self):
        return SymFrac(abs(self.num), self.den)

    def __pos__(self):
        return self

    def __lt__(self, o):
        return _float_cmp(self, o, "lt")

    def __le__(self, o):
        return _float_cmp(self, o, "le")

    def __gt__(self, o):
        return _float_cmp(o, self, "lt")

    def __ge__(self, o):
        return _float_cmp(o, self, "le")

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, list, tuple, dict, type)):
            return False
        return _float_cmp(self, o, "eq")

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __hash__(self):
        return hash(float(self))

    def __bool__(self):
        return bool(self.num != 0)

    def trunc(self):
        q = _exact_floordiv(self.num, self.den)
        neg = self.num < 0
        if neg is False:
            return q
        return ite(neg, 0 - _exact_floordiv(0 - self.num, self.den), q)

    __trunc__ = trunc

    def __int__(self):
        r = self.trunc()
        return CTX.concretize(r) if isinstance(r, SymInt) else int(r)

    def __floor__(self):
        return _exact_floordiv(self.num, self.den)

    def __ceil__(self):
        return 0 - _exact_floordiv(0 - self.num, self.den)

    def __round__(self, n=None):
        if n not in (None, 0):
            raise Unsupported("round to digits")
        two = self.den * 2
        f = _exact_floordiv(self.num * 2 + self.den, two)  # floor(x+1/2)
        # ties to even
        tie = ((self.num * 2 + self.den) % two) == 0
        odd = (f % 2) == 1
        return ite(s_and(tie, odd), f - 1, f)

    def is_integer(self):
        return (self.num % self.den) == 0

    def __float__(self):
        n = CTX.concretize(self.num) if isinstance(self.num, SymInt) else self.num
        d = CTX.concretize(self.den) if isinstance(self.den, SymInt) else self.den
        return n / d

    def __str__(self):
        return CTX.token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return fmt_num(self, spec)

    def item(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __array__(self, dtype=None, copy=None):
        import numpy as np

        a = np.empty((), dtype=object)
        a[()] = self
        return a


def _bits_cmp(a, b, op):
    """comparison of stored floats of one width on their bits (no
    floating-point theory needed), or None"""
    import struct

    if isinstance(a, SymBits):
        fmt = a.fmt
    elif isinstance(b, SymBits):
        fmt = b.fmt
    else:
        return None
    n = {"e": 16, "f": 32, "d": 64}[fmt]
    e = {"e": 5, "f": 8, "d": 11}[fmt]

    def bits(x):
        if isinstance(x, SymBits):
            return x.bits if x.fmt == fmt else None
        if is_sym(x):
            return None
        try:
            v = float(x)
            if v != x and v == v:
                return None
            p = struct.pack("<" + fmt, v)
            if struct.unpack("<" + fmt, p)[0] != v and v == v:
                return None
        except (OverflowError, TypeError, ValueError):
            return None
        return z3.BitVecVal(int.from_bytes(p, "little"), n)

    x, y = bits(a), bits(b)
    if x is None or y is None:
        return None
    inf = z3.BitVecVal(((1 << e) - 1) << (n - 1 - e), n)
    mag = z3.BitVecVal((1 << (n - 1)) - 1, n)
    num = z3.And(z3.ULE(x & mag, inf), z3.ULE(y & mag, inf))
    zero = z3.And(x & mag == 0, y & mag == 0)
    if op == "eq":
        return mkbool(z3.And(num, z3.Or(x == y, zero)))
    key = lambda v: z3.If(v < 0, ~v, v | z3.BitVecVal(1 << (n - 1), n))
    lt = z3.And(num, z3.Not(zero), z3.ULT(key(x), key(y)))
    if op == "lt":
        return mkbool(lt)
    return mkbool(z3.And(num, z3.Or(lt, x == y, zero)))


def _float_cmp(a, b, op):
    for x in (a, b):
        if not (is_sym(x) or isinstance(x, (float, int, Fraction)) or _np_scalar(x)):
            return NotImplemented
    for x, other, flip in ((a, b, False), (b, a, True)):
        if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
            if not isinstance(other, SymFloat):
                if math.isnan(x):
                    return False
                lt = {False: x < 0, True: x > 0}[flip]
                if op == "eq":
                    return False
                return lt
    fa, fb = _as_frac(a), _as_frac(b)
    if fa is not None and fb is not None:
        l, r = fa.num * fb.den, fb.num * fa.den
        if op == "lt":
            return l < r
        if op == "le":
            return l <= r
        return l == r
    r = _bits_cmp(a, b, op)
    if r is not None:
        return r
    x, y = fp_term(a), fp_term(b)
    if op == "lt":
        return mkbool(z3.fpLT(x, y))
    if op == "le":
        return mkbool(z3.fpLEQ(x, y))
    return mkbool(z3.fpEQ(x, y))


class SymFloat:
    """binary64 value as a z3 floating-point term (exact IEEE semantics)."""

    def __init__(self, f):
        self._f = f

    @property
    def f(self):
        return self._f

    __add__ = SymFrac.__add__
    __radd__ = SymFrac.__radd__
    __sub__ = SymFrac.__sub__
    __rsub__ = SymFrac.__rsub__
    __mul__ = SymFrac.__mul__
    __rmul__ = SymFrac.__rmul__
    __truediv__ = SymFrac.__truediv__
    __rtruediv__ = SymFrac.__rtruediv__
    __floordiv__ = SymFrac.__floordiv__
    __rfloordiv__ = SymFrac.__rfloordiv__
    __pow__ = SymFrac.__pow__
    __lt__ = SymFrac.__lt__
    __le__ = SymFrac.__le__
    __gt__ = SymFrac.__gt__
    __ge__ = SymFrac.__ge__
    __eq__ = SymFrac.__eq__
    __ne__ = SymFrac.__ne__
    __hash__ = SymFrac.__hash__
    __str__ = SymFrac.__str__
    __repr__ = SymFrac.__str__
    __format__ = SymFrac.__format__
    __array__ = SymFrac.__array__
    __deepcopy__ = SymFrac.__deepcopy__

    def __neg__(self):
        return SymFloat(z3.fpNeg(self.f))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(z3.fpAbs(self.f))

    def __bool__(self):
        return bool(mkbool(z3.Not(z3.fpIsZero(self.f))))

    def isnan(self):
        return mkbool(z3.fpIsNaN(self.f))

    def isfinite(self):
        return mkbool(z3.Not(z3.Or(z3.fpIsNaN(self.f), z3.fpIsInf(self.f))))

    def trunc(self):
        if bool(mkbool(z3.Or(z3.fpIsNaN(self.f), z3.fpIsInf(self.f)))):
            raise ValueError("cannot convert float NaN or infinity to integer")
        big = mkbool(z3.fpGEQ(z3.fpAbs(self.f), z3.FPVal(2.0**62, F64)))
        if bool(big):
            raise Unsupported("float too large to convert")
        return norm(z3.fpToSBV(z3.RTZ(), self.f, z3.BitVecSort(64)), -(2**62), 2**62)

    __trunc__ = trunc

    def __int__(self):
        return CTX.concretize(self.trunc())

    def _rnd(self, mode):
        return SymFloat(z3.fpRoundToIntegral(mode, self.f)).trunc()

    def __floor__(self):
        return self._rnd(z3.RTN())

    def __ceil__(self):
        return self._rnd(z3.RTP())

    def __round__(self, n=None):
        if n not in (None, 0):
            raise Unsupported("round to digits")
        return self._rnd(z3.RNE())

    def is_integer(self):
        return mkbool(
            z3.And(
                z3.Not(z3.Or(z3.fpIsNaN(self.f), z3.fpIsInf(self.f))),
                z3.fpEQ(self.f, z3.fpRoundToIntegral(z3.RTZ(), self.f)),
            )
        )

    def __float__(self):
        raise Unsupported("symbolic float made concrete")

    def item(self):
        return self

    def astype(self, dt):
        from .arr import cast_elem, D

        return cast_elem(self, D(dt))


class SymBits(SymFloat):
    """A float read from (or written as) raw bits; fmt 'e', 'f' or 'd'."""

    def __init__(self, bits, fmt):
        self.bits = bits
        self.fmt = fmt
        self._f = None

    @property
    def f(self):
        if self._f is None:
            if self.fmt == "d":
                self._f = z3.fpBVToFP(self.bits, F64)
            else:
                s = z3.Float32() if self.fmt == "f" else z3.Float16()
                self._f = z3.fpFPToFP(RNE, z3.fpBVToFP(self.bits, s), F64)
        return self._f


def cplx_op(a, b, op):
    """complex arithmetic on finite values (products with zero are zero)"""
    def parts(x):
        if isinstance(x, SymComplex):
            return x.real, x.imag
        if isinstance(x, (complex,)) or (not is_sym(x) and hasattr(x, "imag")):
            return float(x.real), float(x.imag)
        return x, 0.0

    def zero(x):
        return not is_sym(x) and x == 0

    def add(x, y):
        return y if zero(x) else x if zero(y) else x + y

    def sub(x, y):
        return x if zero(y) else -y if zero(x) else x - y

    def mul(x, y):
        if zero(x) or zero(y):
            return 0.0
        if not is_sym(x) and x == 1:
            return y
        if not is_sym(y) and y == 1:
            return x
        return x * y

    if not all(isinstance(x, (SymComplex, complex, int, float)) or is_sym(x) or _np_scalar(x) for x in (a, b)):
        return NotImplemented
    (p, q), (r, s) = parts(a), parts(b)
    if op == "add":
        return SymComplex(add(p, r), add(q, s))
    if op == "sub":
        return SymComplex(sub(p, r), sub(q, s))
    if op == "mul":
        return SymComplex(sub(mul(p, r), mul(q, s)), add(mul(p, s), mul(q, r)))
    return NotImplemented


class SymComplex:
    def __init__(self, re, im):
        self.real = re
        self.imag = im

    def conjugate(self):
        return SymComplex(self.real, -self.imag)

    def __eq__(self, o):
        if isinstance(o, SymComplex):
            return s_and(same(self.real, o.real), same(self.imag, o.imag))
        return NotImplemented

    def __add__(self, o):
        return cplx_op(self, o, "add")

    def __radd__(self, o):
        return cplx_op(o, self, "add")

    def __sub__(self, o):
        return cplx_op(self, o, "sub")

    def __rsub__(self, o):
        return cplx_op(o, self, "sub")

    def __mul__(self, o):
        return cplx_op(self, o, "mul")

    def __rmul__(self, o):
        return cplx_op(o, self, "mul")

    def __neg__(self):
        return SymComplex(-self.real, -self.imag)

    # lexicographic order, as numpy's minimum and maximum use
    def __lt__(self, o):
        if isinstance(o, (int, float, complex)):
            o = complex(o)
        return s_or(self.real < o.real, s_and(self.real == o.real, self.imag < o.imag))

    def __le__(self, o):
        if isinstance(o, (int, float, complex)):
            o = complex(o)
        return s_or(self.real < o.real, s_and(self.real == o.real, self.imag <= o.imag))

    def __gt__(self, o):
        return s_not(self <= o)

    def __ge__(self, o):
        return s_not(self < o)

    def __format__(self, spec):
        return fmt_num(self, spec)

    def __hash__(self):
        return id(self)


# ---------------------------------------------------------------- identity
def same(a, b):
    """Value identity used by obligations: equal numbers, or floats with the
    same bits (so NaN payloads count as equal to themselves)."""
    if a is b:
        return True
    if isinstance(a, SymComplex) or isinstance(b, SymComplex):
        if isinstance(a, SymComplex) and isinstance(b, SymComplex):
            return s_and(same(a.real, b.real), same(a.imag, b.imag))
        c, o = (a, b) if isinstance(a, SymComplex) else (b, a)
        if isinstance(o, complex):
            return s_and(same(c.real, o.real), same(c.imag, o.imag))
        return False
    if isinstance(a, SymBits) and isinstance(b, SymBits) and a.fmt == b.fmt:
        if z3.eq(a.bits, b.bits):
            return True
        return mkbool(a.bits == b.bits)
    fa, fb = isinstance(a, SymFloat), isinstance(b, SymFloat)
    if fa or fb:
        x, y = fp_term(a), fp_term(b)
        if z3.eq(x, y):
            return True
        return mkbool(z3.Or(x == y, z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y))))
    if is_sym(a) or is_sym(b):
        r = a == b
        if r is NotImplemented:
            return False
        return r
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False
