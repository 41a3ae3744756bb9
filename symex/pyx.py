"""Cython sources for the symbolic worker: a .pyx module is parsed with
Cython's own parser and rendered as Python with the C semantics made explicit
(fixed-width stores, casts, pointers into buffers, typed arguments, fused
types).  For replay the current source is compiled with Cython and the C
compiler into a scratch directory."""

import hashlib
import os
import subprocess
import sys
import types

INTS = {
    "uint8_t": "u1", "uint16_t": "u2", "uint32_t": "u4", "uint64_t": "u8",
    "int8_t": "i1", "int16_t": "i2", "int32_t": "i4", "int64_t": "i8",
    "size_t": "u8", "Py_ssize_t": "i8", "ssize_t": "i8", "bint": "i4",
}


class NotTranslated(Exception):
    pass


# ------------------------------------------------------------- run time
def c(x, t):
    """conversion to the C integer type t (a numpy type string or dtype)"""
    import numpy as np
    from . import arr as A
    from .core import SymInt

    dt = t if isinstance(t, np.dtype) else np.dtype(t)
    if isinstance(x, SymInt):
        x = SymInt(x.t, x.lo, x.hi)
    elif not hasattr(x, "t"):
        x = int(x)
    return A.cast_elem(x, dt)


class Ptr:
    """pointer into a bytes buffer; reads outside the buffer raise"""

    __slots__ = ("buf", "off")

    def __init__(self, buf, off=0):
        self.buf, self.off = buf, off

    def __getitem__(self, i):
        k = self.off + i
        if k < 0 or k >= len(self.buf):
            raise IndexError("C read outside of the buffer")
        return self.buf[k]


def ptr(x):
    return x.p if isinstance(x, Struct) else x if isinstance(x, Ptr) else Ptr(x)


def addr(base, i):
    base = ptr(base)
    return Ptr(base.buf, base.off + i)


class Struct:
    def __init__(self, p, fields):
        self.p, self.fields = p, fields

    def __getattr__(self, name):
        import numpy as np

        off = 0
        for f, t in self.fields:
            n = np.dtype(t).itemsize
            if f == name:
                v = 0
                for k in range(n):
                    v = v | self.p[off + k] << (8 * k)
                return c(v, t)
            off += n
        raise AttributeError(name)


def castptr(x, fields):
    if isinstance(x, Struct):
        if fields == x.fields:
            return x
        x = x.p
    return Struct(ptr(x), fields) if fields else ptr(x)


def div(a, b):
    if isinstance(a, int) and isinstance(b, int) and (a < 0) != (b < 0):
        return -(abs(a) // abs(b))
    return a // b


def mod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b * div(a, b)
    return a % b


def setitem(a, idx, v):
    a[idx] = c(v, a.dtype) if a.dtype.kind in "iu" else v


def getitem(a, idx):
    """elements of memory views are C numbers"""
    from .core import SymInt

    v = a[idx]
    if isinstance(v, SymInt):
        return SymInt(v.t, v.lo, v.hi)
    return v.item() if hasattr(v, "item") and getattr(v, "shape", 1) == () else v


class Fused:
    """function with a fused memory view argument: picked by index or by dtype"""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, t):
        return self.f

    def __call__(self, *a):
        return self.f(*a)


# ----------------------------------------------------------- translation
class Emit:
    def __init__(self, tree):
        self.out = []
        self.ind = 0
        self.structs = {}
        self.fused = set()
        self.classes = {}
        self.genv = {}
        self.env = None
        self.cls = None
        self.ret = None
        self.stats(tree.body)

    def w(self, s):
        self.out.append("    " * self.ind + s)

    # -- types
    def base(self, b):
        n = type(b).__name__
        if n == "MemoryViewSliceTypeNode":
            return ("mv", self.base(b.base_type_node))
        if n != "CSimpleBaseTypeNode":
            raise NotTranslated(n)
        if b.name in self.fused:
            return ("fused", b.name)
        if b.name in INTS:
            return ("int", INTS[b.name])
        if b.name in self.structs:
            return ("struct", b.name)
        if b.is_basic_c_type:
            if b.name == "char":
                return ("int", "i1" if b.signed else "u1")
            if b.name == "int":
                sz = {-1: 2, 0: 4, 1: 8, 2: 8}[b.longness]
                return ("int", ("i" if b.signed else "u") + str(sz))
            if b.name == "void":
                return ("void",)
            if b.name in ("double", "float"):
                return ("float", "f8" if b.name == "double" or b.longness else "f4")
            raise NotTranslated("C type " + b.name)
        return ("obj",)

    def decl(self, b, d):
        """(name, type) of a declarator"""
        t = b
        while type(d).__name__ == "CPtrDeclaratorNode":
            t = ("ptr", t)
            d = d.base
        if type(d).__name__ != "CNameDeclaratorNode":
            raise NotTranslated(type(d).__name__)
        return d.name, t, d.default

    def conv(self, s, t):
        if t is None or t[0] in ("obj", "mv", "void"):
            return s
        if t[0] == "int":
            return f"_p.c({s}, {t[1]!r})"
        if t[0] == "fused":
            return f"_p.c({s}, {t[1]})"
        if t[0] == "ptr":
            if t[1][0] == "struct":
                return f"_p.castptr({s}, {self.structs[t[1][1]]!r})"
            if t[1] in (("int", "u1"), ("int", "i1")):
                return f"_p.ptr({s})"
        raise NotTranslated("conversion to %r" % (t,))

    def typeof(self, n):
        """declared type of an expression that can be assigned"""
        k = type(n).__name__
        if k == "NameNode":
            if self.env is not None and n.name in self.env:
                return self.env[n.name]
            return self.genv.get(n.name)
        if k == "AttributeNode" and self.cls and type(n.obj).__name__ == "NameNode" and n.obj.name == "self":
            return self.classes[self.cls].get(n.attribute)
        return None

    # -- expressions
    def e(self, n):
        k = type(n).__name__
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise NotTranslated(k)
        return m(n)

    def e_NameNode(self, n):
        return n.name

    def e_IntNode(self, n):
        return "(%s)" % n.value.rstrip("uUlL")

    def e_FloatNode(self, n):
        return n.value

    def e_NoneNode(self, n):
        return "None"

    def e_BoolNode(self, n):
        return str(bool(n.value))

    def e_UnicodeNode(self, n):
        return repr(str(n.value))

    e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        v = n.value
        return repr(bytes(v) if isinstance(v, bytes) else str(v).encode("latin-1"))

    def e_AttributeNode(self, n):
        return f"{self.e(n.obj)}.{n.attribute}"

    def e_IndexNode(self, n):
        t = self.typeof(n.base)
        if t and t[0] == "mv":
            return f"_p.getitem({self.e(n.base)}, {self.e(n.index)})"
        return f"{self.e(n.base)}[{self.e(n.index)}]"

    def e_SliceIndexNode(self, n):
        a = self.e(n.start) if n.start is not None else ""
        b = self.e(n.stop) if n.stop is not None else ""
        return f"{self.e(n.base)}[{a}:{b}]"

    def e_TupleNode(self, n):
        return "(" + "".join(self.e(x) + ", " for x in n.args) + ")"

    def e_ListNode(self, n):
        return "[" + ", ".join(self.e(x) for x in n.args) + "]"

    def e_DictNode(self, n):
        return "{" + ", ".join(f"{self.e(x.key)}: {self.e(x.value)}" for x in n.key_value_pairs) + "}"

    def e_SimpleCallNode(self, n):
        return f"{self.e(n.function)}({', '.join(self.e(x) for x in n.args)})"

    def e_GeneralCallNode(self, n):
        a = [self.e(x) for x in n.positional_args.args]
        kw = n.keyword_args
        for x in kw.key_value_pairs if kw is not None else ():
            a.append(f"{x.key.value}={self.e(x.value)}")
        return f"{self.e(n.function)}({', '.join(a)})"

    def e_TypecastNode(self, n):
        name, t, _ = self.decl(self.base(n.base_type), n.declarator)
        return self.conv(self.e(n.operand), t)

    def e_AmpersandNode(self, n):
        o = n.operand
        if type(o).__name__ != "IndexNode":
            raise NotTranslated("address of " + type(o).__name__)
        return f"_p.addr({self.e(o.base)}, {self.e(o.index)})"

    def bin(self, n):
        op = n.operator
        a, b = self.e(n.operand1), self.e(n.operand2)
        if op in ("//", "/"):
            return f"_p.div({a}, {b})"
        if op == "%":
            return f"_p.mod({a}, {b})"
        return f"({a} {op} {b})"

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = bin
    e_IntBinopNode = e_BitwiseOrNode = bin

    def e_BoolBinopNode(self, n):
        return f"({self.e(n.operand1)} {n.operator} {self.e(n.operand2)})"

    def e_NotNode(self, n):
        return f"(not {self.e(n.operand)})"

    def e_UnaryMinusNode(self, n):
        return f"(-{self.e(n.operand)})"

    def e_TildeNode(self, n):
        return f"(~{self.e(n.operand)})"

    def e_CondExprNode(self, n):
        return f"({self.e(n.true_val)} if {self.e(n.test)} else {self.e(n.false_val)})"

    def e_PrimaryCmpNode(self, n):
        s = f"{self.e(n.operand1)} {n.operator.replace('_', ' ')} {self.e(n.operand2)}"
        x = n.cascade
        while x is not None:
            s += f" {x.operator} {self.e(x.operand2)}"
            x = x.cascade
        return f"({s})"

    def e_SizeofTypeNode(self, n):
        import numpy as np

        name, t, _ = self.decl(self.base(n.base_type), n.declarator)
        if t[0] == "int":
            return str(np.dtype(t[1]).itemsize)
        if t[0] == "struct":
            return str(sum(np.dtype(x).itemsize for _, x in self.structs[t[1]]))
        raise NotTranslated("sizeof")

    # -- statements
    def stats(self, n):
        if n is None:
            return
        k = type(n).__name__
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise NotTranslated(k)
        m(n)

    def block(self, n):
        self.ind += 1
        k = len(self.out)
        self.stats(n)
        if len(self.out) == k:
            self.w("pass")
        self.ind -= 1

    def s_StatListNode(self, n):
        for x in n.stats:
            self.stats(x)

    def s_PassStatNode(self, n):
        self.w("pass")

    def s_FromCImportStatNode(self, n):
        pass

    s_CImportStatNode = s_FromCImportStatNode

    def s_FusedTypeNode(self, n):
        self.fused.add(n.name)
        for t in n.types:
            b = self.base(t)
            self.w(f"{t.name} = {b[1]!r}")

    def s_CTypeDefNode(self, n):
        name, t, _ = self.decl(self.base(n.base_type), n.declarator)
        if t[0] != "int":
            raise NotTranslated("typedef")
        INTS[name] = t[1]

    def s_CStructOrUnionDefNode(self, n):
        f = []
        for a in n.attributes:
            for d in a.declarators:
                name, t, _ = self.decl(self.base(a.base_type), d)
                if t[0] != "int" or not n.packed:
                    raise NotTranslated("struct")
                f.append((name, t[1]))
        self.structs[n.name] = f

    def s_CVarDefNode(self, n):
        b = self.base(n.base_type)
        for d in n.declarators:
            name, t, default = self.decl(b, d)
            if self.env is None and self.cls:
                self.classes[self.cls][name] = t
                self.w(f"{name} = {0 if t[0] == 'int' else None}")
                continue
            (self.genv if self.env is None else self.env)[name] = t
            if default is not None:
                self.w(f"{name} = {self.conv(self.e(default), t)}")

    def func(self, name, args, body, ret):
        self.env = {}
        names, fused, conv = [], None, []
        for i, a in enumerate(args):
            b = self.base(a.base_type)
            nm, t, _ = self.decl(b, a.declarator)
            if not nm:  # untyped argument: the type is its name
                nm, t = a.base_type.name, ("obj",)
            if a.base_type is not None and getattr(a.base_type, "name", 1) is None:
                t = ("obj",)
            self.env[nm] = t
            names.append(nm + ("=" + self.e(a.default) if a.default is not None else ""))
            if t[0] == "mv" and t[1][0] == "fused":
                fused = (t[1][1], nm)
            if t[0] in ("int", "ptr", "float"):
                conv.append((nm, t))
        if fused:
            self.w("@_p.Fused")
        self.w(f"def {name}({', '.join(names)}):")
        self.ind += 1
        if fused:
            self.w(f"{fused[0]} = {fused[1]}.dtype")
        for nm, t in conv:
            self.w(f"{nm} = {self.conv(nm, t)}")
        g = [x for x in self.genv]
        self.ret = ret
        k = len(self.out)
        self.stats(body)
        used = [x for x in g if any(l.lstrip().startswith(x + " = ") for l in self.out[k:]) and x not in self.env]
        if used:
            self.out.insert(k, "    " * self.ind + "global " + ", ".join(used))
        if len(self.out) == k:
            self.w("pass")
        self.ind -= 1
        self.env = None

    def s_CFuncDefNode(self, n):
        d = n.declarator
        ret = self.base(n.base_type)
        while type(d).__name__ == "CPtrDeclaratorNode":
            ret = ("ptr", ret)
            d = d.base
        self.func(d.base.name, d.args, n.body, ret)

    def s_DefNode(self, n):
        if n.star_arg or n.starstar_arg:
            raise NotTranslated("star arguments")
        self.func(n.name, n.args, n.body, ("obj",))

    def s_CClassDefNode(self, n):
        self.cls = n.class_name
        self.classes[self.cls] = {}
        self.w(f"class {n.class_name}:")
        self.ind += 1
        k = len(self.out)
        self.stats(n.body)
        txt = "\n".join(self.out[k:])
        if "def __cinit__(" in txt:
            for i in range(k, len(self.out)):
                self.out[i] = self.out[i].replace("def __init__(", "def _init(")
            self.w("def __init__(self, *a, **kw):")
            self.w("    self.__cinit__(*a, **kw)")
            if "def __init__(" in txt:
                self.w("    self._init(*a, **kw)")
        self.ind -= 1
        self.cls = None

    def s_ExprStatNode(self, n):
        self.w(self.e(n.expr))

    def assign(self, lhs, s):
        k = type(lhs).__name__
        if k == "IndexNode":
            t = self.typeof(lhs.base)
            if t and t[0] == "mv":
                self.w(f"_p.setitem({self.e(lhs.base)}, {self.e(lhs.index)}, {s})")
                return
            self.w(f"{self.e(lhs)} = {s}")
        elif k == "TupleNode":
            if any(self.typeof(x) not in (None, ("obj",)) for x in lhs.args):
                self.w(f"_tuple = {s}")
                for i, x in enumerate(lhs.args):
                    self.assign(x, f"_tuple[{i}]")
            else:
                self.w(f"{self.e(lhs)} = {s}")
        else:
            self.w(f"{self.e(lhs)} = {self.conv(s, self.typeof(lhs))}")

    def s_SingleAssignmentNode(self, n):
        r = n.rhs
        if type(r).__name__ == "ImportNode":
            m = r.module_name.value
            if m != "cython":
                self.w(f"import {m} as {n.lhs.name}")
            return
        self.assign(n.lhs, self.e(r))

    def s_CascadedAssignmentNode(self, n):
        for l in n.lhs_list:
            self.assign(l, self.e(n.rhs))

    def s_InPlaceAssignmentNode(self, n):
        op = n.operator
        a, b = self.e(n.lhs), self.e(n.rhs)
        s = f"_p.div({a}, {b})" if op in ("//", "/") else f"_p.mod({a}, {b})" if op == "%" else f"({a} {op} ({b}))"
        self.assign(n.lhs, s)

    def s_ReturnStatNode(self, n):
        self.w("return " + (self.conv(self.e(n.value), self.ret) if n.value is not None else ""))

    def s_IfStatNode(self, n):
        for i, x in enumerate(n.if_clauses):
            self.w(("if " if i == 0 else "elif ") + self.e(x.condition) + ":")
            self.block(x.body)
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def s_ForInStatNode(self, n):
        it = self.e(n.iterator.sequence)
        if n.else_clause is not None:
            raise NotTranslated("for-else")
        self.w(f"for {self.e(n.target)} in {it}:")
        self.block(n.body)

    def s_WhileStatNode(self, n):
        self.w(f"while {self.e(n.condition)}:")
        self.block(n.body)

    def s_BreakStatNode(self, n):
        self.w("break")

    def s_ContinueStatNode(self, n):
        self.w("continue")

    def s_RaiseStatNode(self, n):
        self.w("raise " + (self.e(n.exc_type) if n.exc_type is not None else ""))


def translate(text, name="module"):
    sys.path_importer_cache  # keep sys in use
    from Cython.Compiler.TreeFragment import parse_from_strings

    tree = parse_from_strings(name.replace(".", "_"), text, level="module")
    return "\n".join(Emit(tree).out) + "\n"


def source_of(fullname, paths):
    for p in paths or ():
        f = os.path.join(p, fullname.rpartition(".")[2] + ".pyx")
        if os.path.exists(f):
            return f


class Loader:
    """the translated module, for symbolic execution"""

    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        with open(self.path) as f:
            src = translate(f.read(), mod.__name__)
        mod.__dict__["_p"] = sys.modules[__name__]
        mod.__dict__["__pyx_python__"] = src
        exec(compile(src, self.path, "exec"), mod.__dict__)


def build(path):
    """compile the current source; returns the file of the extension module"""
    with open(path, "rb") as f:
        text = f.read()
    import numpy
    import sysconfig

    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    d = os.path.join(root, ".cache", "pyx-" + hashlib.sha256(text).hexdigest()[:16])
    name = os.path.basename(path)[:-4]
    so = os.path.join(d, name + sysconfig.get_config_var("EXT_SUFFIX"))
    if not os.path.exists(so):
        t = d + ".%d" % os.getpid()
        os.makedirs(t, exist_ok=True)
        src = os.path.join(t, name + ".pyx")
        with open(src, "wb") as f:
            f.write(text)
        run = dict(check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        subprocess.run([sys.executable, "-m", "cython", "-3", src], **run)
        subprocess.run(
            ["gcc", "-O1", "-fPIC", "-shared", "-w", "-I", sysconfig.get_paths()["include"], "-I", numpy.get_include(),
             src[:-4] + ".c", "-o", os.path.join(t, os.path.basename(so))], **run)
        try:
            os.rename(t, d)
        except OSError:
            import shutil

            shutil.rmtree(t, True)
    return so


class Finder:
    """finds .pyx modules of the package: translated (symbolic) or compiled (replay)"""

    def __init__(self, symbolic):
        self.symbolic = symbolic

    def find_spec(self, name, path=None, target=None):
        if not name.startswith("rsciio."):
            return None
        import importlib.util

        f = source_of(name, path)
        if f is None:
            return None
        if self.symbolic:
            return importlib.util.spec_from_loader(name, Loader(f), origin=f)
        return importlib.util.spec_from_file_location(name, build(f))


def install(symbolic):
    sys.meta_path.insert(0, Finder(symbolic))
