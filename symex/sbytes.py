"""Symbolic byte strings and files."""

import io
import os
import builtins
import struct as _struct

import z3

from .core import (
    round_mant,
    CTX,
    SymBits,
    SymBool,
    SymFloat,
    SymFrac,
    SymInt,
    SymComplex,
    Unsupported,
    fp_term,
    is_sym,
    mkint,
    norm,
    s_and,
    F64,
    RNE,
)


def byte_of(x):
    """8-bit term of one cell (int or SymInt in 0..255)"""
    if isinstance(x, SymInt):
        if x.lo < 0 or x.hi > 255:
            if not builtins.bool((x >= 0) & (x <= 255)):
                raise ValueError("bytes must be in range(0, 256)")
            x = SymInt(x.t, max(x.lo, 0), min(x.hi, 255))
        return z3.Extract(7, 0, x.at(9))
    return z3.BitVecVal(x, 8)


def cell(bv8):
    bv8 = z3.simplify(bv8)
    if z3.is_bv_value(bv8):
        return bv8.as_long()
    return norm(z3.ZeroExt(1, bv8), 0, 255)


class SymBytes:
    """Immutable sequence of cells; each is an int or an 8-bit SymInt."""

    def __init__(self, cells):
        self.c = list(cells)

    def __len__(self):
        return len(self.c)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes(self.c[i])
        return self.c[i]

    def __iter__(self):
        return iter(self.c)

    def __add__(self, o):
        return mkbytes(self.c + cells_of(o))

    def __radd__(self, o):
        return mkbytes(cells_of(o) + self.c)

    def __mul__(self, n):
        return mkbytes(self.c * int(n))

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes, memoryview)):
            return False
        d = cells_of(o)
        if len(d) != len(self.c):
            return False
        return s_and(*[a == b for a, b in zip(self.c, d)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bytes(self))

    def __bool__(self):
        return len(self.c) > 0

    def __bytes__(self):
        return bytes(CTX.concretize(x) if isinstance(x, SymInt) else x for x in self.c)

    def __contains__(self, o):
        return o in bytes(self)

    def decode(self, *a, **k):
        return bytes(self).decode(*a, **k)

    def strip(self, *a):
        return bytes(self).strip(*a)

    def rstrip(self, *a):
        return bytes(self).rstrip(*a)

    def startswith(self, p):
        return bool(mkbytes(self.c[: len(p)]) == p)

    def find(self, *a):
        return bytes(self).find(*a)

    def tobytes(self):
        return self

    def __repr__(self):
        return "SymBytes(%d)" % len(self.c)

    def __deepcopy__(self, memo):
        return self

    @property
    def nbytes(self):
        return len(self.c)


def cells_of(o):
    if isinstance(o, SymBytes):
        return list(o.c)
    if isinstance(o, (bytes, bytearray, memoryview)):
        return list(bytes(o))
    if hasattr(o, "tobytes"):
        return cells_of(o.tobytes())
    raise Unsupported(f"bytes of {type(o)}")


def mkbytes(cells):
    if all(type(x) is int for x in cells):
        return bytes(cells)
    return SymBytes(cells)


def bits_to_cells(bits, nbytes, little):
    out = [cell(z3.Extract(8 * k + 7, 8 * k, bits)) for k in range(nbytes)]
    return out if little else out[::-1]


def cells_to_bits(cells, little):
    cs = list(cells) if little else list(cells)[::-1]
    if len(cs) == 1:
        return byte_of(cs[0])
    return z3.Concat(*[byte_of(x) for x in reversed(cs)])


def int_to_bytes(v, length, byteorder, signed):
    lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << 8 * length) - 1)
    if bool((v < lo) | (v > hi)):
        raise OverflowError("int too big to convert")
    n = 8 * length
    b = z3.simplify(z3.Extract(n - 1, 0, v.at(max(n, v.t.size()))))
    if length > 1:
        CTX.ivals[b.get_id()] = (b, v)
    return mkbytes(bits_to_cells(b, length, byteorder == "little"))


def int_from_cells(cells, little, signed):
    n = len(cells) * 8
    if n == 0:
        return 0
    if all(type(x) is int for x in cells):
        return int.from_bytes(bytes(cells), "little" if little else "big", signed=signed)
    bits = cells_to_bits(cells, little)
    if CTX.ivals and len(cells) > 1:
        # the very bytes of an integer packed before
        k = CTX.ivals.get(z3.simplify(bits).get_id())
        if k is not None and (-(1 << (n - 1)) <= k[1].lo and k[1].hi < 1 << (n - 1) if signed else 0 <= k[1].lo and k[1].hi < 1 << n):
            return k[1]
    if signed:
        return norm(bits, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    # tight bounds where high bytes are concrete zeros
    cs = list(cells) if little else list(cells)[::-1]
    hi = 0
    lo = 0
    for k, x in enumerate(cs):
        if isinstance(x, SymInt):
            hi += x.hi << (8 * k)
            lo += max(x.lo, 0) << (8 * k)
        else:
            hi += x << (8 * k)
            lo += x << (8 * k)
    return norm(z3.ZeroExt(1, bits), lo, hi)


def float_from_cells(cells, little, fmt):
    if all(type(x) is int for x in cells):
        return _struct.unpack(("<" if little else ">") + fmt, bytes(cells))[0]
    bits = z3.simplify(cells_to_bits(cells, little))
    v = CTX.fvals.get((bits.get_id(), fmt))
    return SymBits(bits, fmt) if v is None else v[1]


FLT = {2: ("e", z3.FPSort(5, 11)), 4: ("f", z3.Float32()), 8: ("d", F64)}


def _named_float(num, den, fmt, nbytes):
    t = z3.simplify(num.t)
    key = (t.get_id(), den, fmt)
    if key not in CTX.fbits:
        b = z3.BitVec(CTX.fresh("!float"), 8 * nbytes)
        CTX.fbits[key] = (b, t)
        CTX.fvals[(b.get_id(), fmt)] = (b, SymFrac(SymInt(t, num.lo, num.hi), den))
    return CTX.fbits[key][0]


def float_bits(v, nbytes):
    """bits of a float value stored with the given width"""
    fmt, sort = FLT[nbytes]
    if isinstance(v, SymBits) and v.fmt == fmt:
        return v.bits
    if isinstance(v, (SymInt, SymFrac)):
        # an exactly representable rational: its bits are an opaque word that
        # reads back as the rational (an over-approximation of the real bits)
        num, den = (v, 1) if isinstance(v, SymInt) else (v.num, v.den)
        mant = {2: 11, 4: 24, 8: 53}[nbytes]
        if isinstance(v, SymInt) and nbytes > 2:
            num = round_mant(num, mant)
            if not isinstance(num, SymInt):
                return float_bits(float(num), nbytes)
            return _named_float(num, 1, fmt, nbytes)
        if isinstance(num, SymInt) and isinstance(den, int) and den & (den - 1) == 0 and den < 1 << 60 and max(abs(num.lo), abs(num.hi)) <= 1 << mant and nbytes > 2:
            return _named_float(num, den, fmt, nbytes)
    if is_sym(v):
        t = fp_term(v)
        if nbytes != 8:
            t = z3.fpFPToFP(RNE, t, sort)
        return z3.fpToIEEEBV(t)
    b = _struct.pack("<" + fmt, v)
    return z3.BitVecVal(int.from_bytes(b, "little"), nbytes * 8)


def elem_to_cells(v, dt):
    """bytes of one array element of (simple) numpy dtype dt"""
    import numpy as np

    little = _little(dt)
    n = dt.itemsize
    if dt.kind in "iub":
        if isinstance(v, (SymBool,)):
            v = mkint(v)
        if isinstance(v, SymInt):
            return bits_to_cells(z3.Extract(8 * n - 1, 0, v.at(max(8 * n, v.t.size()))), n, little)
        return list(np.array(v, dtype=dt).tobytes())
    if dt.kind == "f":
        if not is_sym(v):
            return list(np.array(v, dtype=dt).tobytes())
        return bits_to_cells(float_bits(v, n), n, little)
    if dt.kind == "c":
        half = np.dtype(dt.byteorder + "f%d" % (n // 2)) if dt.byteorder in "<>" else np.dtype("f%d" % (n // 2))
        if not isinstance(v, SymComplex) and not is_sym(v):
            return list(np.array(v, dtype=dt).tobytes())
        return elem_to_cells(v.real, half) + elem_to_cells(v.imag, half)
    if isinstance(v, SymS):
        return list(v.full[:n]) + [0] * (n - len(v.full))
    if isinstance(v, SymBytes) and dt.kind in "SV":
        c = cells_of(v)[:n]
        return list(c) + [0] * (n - len(c))
    if dt.kind in "SVa":
        return list(np.array(v, dtype=dt).tobytes())
    raise Unsupported(f"bytes of dtype {dt}")


class SymS:
    """element of a byte-string array; trailing NULs are dropped on use"""

    def __init__(self, cells, n):
        self.full = tuple(cells)

    def conc(self):
        return bytes(mkbytes(list(self.full))).rstrip(b"\0")

    def __bytes__(self):
        return self.conc()

    def decode(self, *a, **k):
        return self.conc().decode(*a, **k)

    def __eq__(self, o):
        return self.conc() == (o.conc() if isinstance(o, SymS) else o)

    def __hash__(self):
        return hash(self.conc())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.conc(), name)

    def __repr__(self):
        return "SymS"


def cells_to_elem(cells, dt):
    import numpy as np

    little = _little(dt)
    if all(type(x) is int for x in cells) and dt.kind != "V":
        return np.frombuffer(bytes(cells), dtype=dt)[0].item() if dt.kind not in "S" else np.frombuffer(bytes(cells), dtype=dt)[0]
    n = dt.itemsize
    if dt.kind in "iu":
        return int_from_cells(cells, little, dt.kind == "i")
    if dt.kind == "b":
        c = cells[0] != 0
        return c
    if dt.kind == "f":
        return float_from_cells(cells, little, FLT[n][0])
    if dt.kind == "c":
        h = n // 2
        f = FLT[h][0]
        return SymComplex(float_from_cells(cells[:h], little, f), float_from_cells(cells[h:], little, f))
    if dt.kind == "S":
        return SymS(cells, n)
    if dt.kind == "V":
        return SymBytes(cells)
    raise Unsupported(f"element of dtype {dt}")


def _little(dt):
    import sys

    if dt.byteorder == ">":
        return False
    if dt.byteorder == "<":
        return True
    return sys.byteorder == "little"


# ------------------------------------------------------------------ struct
_SIZES = {
    "x": 1, "c": 1, "b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4,
    "l": 4, "L": 4, "q": 8, "Q": 8, "e": 2, "f": 4, "d": 8,
}
_NSIZES = dict(_SIZES, l=8, L=8)


def _parse_fmt(fmt):
    import re

    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    fmt = fmt.replace(" ", "")
    little, sizes, native = True, _NSIZES, True
    if fmt and fmt[0] in "<>=!@":
        little = fmt[0] not in ">!"
        native = fmt[0] == "@"
        sizes = _NSIZES if native else _SIZES
        fmt = fmt[1:]
    items = []
    for n, ch in re.findall(r"(\d*)([a-zA-Z?])", fmt):
        if ch == "s":
            items.append(("s", int(n) if n else 1))
        else:
            items.extend([(ch, sizes[ch])] * (int(n) if n else 1))
    return little, native, items


class StructShim:
    """stands for the struct module inside the code under test"""

    error = _struct.error
    calcsize = staticmethod(_struct.calcsize)

    @staticmethod
    def unpack(fmt, data):
        if not isinstance(data, SymBytes):
            return _struct.unpack(fmt, data)
        little, native, items = _parse_fmt(fmt)
        need = _struct.calcsize(fmt)
        if need != len(data):
            raise _struct.error(f"unpack requires a buffer of {need} bytes")
        if native and sum(s for _, s in items) != need:
            raise Unsupported("native struct padding")
        out, p = [], 0
        for ch, n in items:
            cs = data.c[p : p + n]
            p += n
            if ch == "x":
                continue
            if ch in "sc":
                out.append(mkbytes(cs))
            elif ch in "fde":
                out.append(float_from_cells(cs, little, ch))
            elif ch == "?":
                out.append(cs[0] != 0)
            else:
                out.append(int_from_cells(cs, little, ch in "bhilq"))
        return tuple(out)

    @staticmethod
    def unpack_from(fmt, buf, offset=0):
        offset = int(offset)
        n = _struct.calcsize(fmt)
        if not isinstance(buf, SymBytes):
            return _struct.unpack_from(fmt, buf, offset)
        return StructShim.unpack(fmt, buf[offset : offset + n])

    @staticmethod
    def iter_unpack(fmt, buf):
        n = _struct.calcsize(fmt)
        if len(buf) % n:
            raise _struct.error("iterative unpacking requires a multiple")
        for p in range(0, len(buf), n):
            yield StructShim.unpack(fmt, buf[p : p + n])

    @staticmethod
    def pack(fmt, *args):
        if not any(is_sym(a) or isinstance(a, SymBytes) for a in args):
            return _struct.pack(fmt, *args)
        little, native, items = _parse_fmt(fmt)
        if native and sum(s for _, s in items) != _struct.calcsize(fmt):
            raise Unsupported("native struct padding")
        args = list(args)
        if len([1 for ch, _ in items if ch != "x"]) != len(args):
            raise _struct.error("pack expected a different number of items")
        out = []
        for ch, n in items:
            if ch == "x":
                out.append(0)
                continue
            a = args.pop(0)
            if ch in "sc":
                cs = cells_of(a)[:n]
                out += cs + [0] * (n - len(cs))
            elif ch in "fde":
                if not is_sym(a):
                    out += list(_struct.pack(("<" if little else ">") + ch, a))
                else:
                    out += bits_to_cells(float_bits(a, n), n, little)
            else:
                if isinstance(a, SymBool):
                    a = mkint(a)
                if isinstance(a, (SymFloat, SymFrac)):
                    raise _struct.error("required argument is not an integer")
                if not isinstance(a, SymInt):
                    out += list(_struct.pack(("<" if little else ">") + ch, a))
                    continue
                signed = ch in "bhilq"
                try:
                    out += cells_of(int_to_bytes(a, n, "little" if little else "big", signed))
                except OverflowError:
                    raise _struct.error("argument out of range")
        return mkbytes(out)

    @staticmethod
    def pack_into(fmt, buf, offset, *args):
        raise Unsupported("struct.pack_into")

    class Struct:
        def __init__(self, fmt):
            self.format = fmt
            self.size = _struct.calcsize(fmt)

        def unpack(self, b):
            return StructShim.unpack(self.format, b)

        def unpack_from(self, b, offset=0):
            return StructShim.unpack_from(self.format, b, offset)

        def iter_unpack(self, b):
            return StructShim.iter_unpack(self.format, b)

        def pack(self, *a):
            return StructShim.pack(self.format, *a)


# ------------------------------------------------------------------ files
class VFS:
    """path -> list of cells.  A real file of the same length backs every
    entry so that os.path, pathlib and friends see it."""

    def __init__(self):
        self.files = {}
        self.maps = []

    def norm(self, p):
        try:
            return os.path.abspath(os.fspath(p))
        except TypeError:
            return None

    def has(self, p):
        p = self.norm(p)
        return p is not None and p in self.files

    def put(self, p, cells):
        p = self.norm(p)
        self.files[p] = list(cells)
        self.sync(p)

    def sync(self, p):
        with open(p, "wb") as f:
            f.write(bytes(x if type(x) is int else 0 for x in self.files[p]))

    def get(self, p):
        self.flush_maps()
        return self.files[self.norm(p)]

    def flush_maps(self):
        for m in self.maps:
            m._sync_to_file()


class FileNo(int):
    """descriptor of a symbolic file: only mmap knows what to do with it"""


class SymFile(io.RawIOBase):
    """binary file over a VFS entry (or an anonymous buffer)"""

    def __init__(self, cells, name=None, mode="rb", vfs=None):
        self.cells = cells
        self.name = name
        self._mode = mode
        self.p = len(cells) if "a" in mode else 0
        self.vfs = vfs

    @property
    def mode(self):
        return self._mode

    def fileno(self):
        n = FileNo(-1)
        n.symfile = self
        return n

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.p

    def seek(self, off, whence=0):
        off = int(off)
        if whence == 0:
            if off < 0:
                raise OSError(22, "Invalid argument")
            self.p = off
        elif whence == 1:
            self.p += off
        else:
            self.p = len(self.cells) + off
        if self.p < 0:
            raise OSError(22, "Invalid argument")
        return self.p

    def read(self, n=-1):
        if n is None:
            n = -1
        n = int(n)
        if n < 0:
            r = self.cells[self.p :]
        else:
            r = self.cells[self.p : self.p + n]
        self.p += len(r)
        return mkbytes(r)

    def readinto(self, b):
        raise Unsupported("readinto")

    def write(self, data):
        cs = cells_of(data)
        if self.p > len(self.cells):
            self.cells.extend([0] * (self.p - len(self.cells)))
        self.cells[self.p : self.p + len(cs)] = cs
        self.p += len(cs)
        return len(cs)

    def truncate(self, n=None):
        n = self.p if n is None else int(n)
        del self.cells[n:]
        self.cells.extend([0] * (n - len(self.cells)))
        return n

    def readline(self, size=-1):
        raise Unsupported("readline on a symbolic file")

    def flush(self):
        pass

    def getvalue(self):
        return mkbytes(self.cells)

    def getbuffer(self):
        return mkbytes(self.cells)

    def close(self):
        if not self.closed and self.vfs is not None and any(c in self._mode for c in "wa+x"):
            try:
                self.vfs.sync(self.name)
            except OSError:
                pass
        super().close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        pass
