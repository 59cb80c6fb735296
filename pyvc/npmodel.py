"""Models of numpy / math / builtins used by the repository (assumed semantics over the reals)."""
from __future__ import annotations
import copy as _copy
import math
from fractions import Fraction
import itertools
import numpy as np
import z3
from . import sym, vec
from .sym import (Poly, Poison, PoisonUse, SymBool, Unsupported, PyRaise, P, ctx, b_and, b_or, b_not, is_num, ite,
                  smax, smin, sabs, ssqrt, normal)
from .vec import Vec, Mat, MatT, Had, HadMat, LenArr, TileRow, Dim

MISSING = object()
MODELS = {}


class Const:
    def __init__(self, f):
        self.f = f

    def get(self):
        return self.f()

    def __call__(self):
        return self.f()


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def exc(name, *a):
    from .interp import ExcVal
    return PyRaise(ExcVal(name, a))


def npmap(f, *arrs):
    from .interp import npmap as m
    return m(f, *arrs)


def nd(x):
    """to object ndarray"""
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return x.astype(object)
        return x
    if isinstance(x, (list, tuple)):
        return make_array(list(x))
    r = np.empty((), dtype=object)
    r[()] = x
    return r


SCALAR = (int, float, Fraction, Poly, SymBool, bool, Poison)


def is_scalar(x):
    return isinstance(x, SCALAR)


for _n, _v in (("pi", sym.pi), ):
    MODELS["numpy.pi"] = Const(sym.pi)
    MODELS["math.pi"] = Const(sym.pi)
    MODELS["sys.float_info.max"] = Const(lambda: Fraction(2) ** 1024 - Fraction(2) ** 971)
for _m in ("numpy", "math"):
    MODELS[_m + ".inf"] = Const(lambda: float("inf"))
    MODELS[_m + ".nan"] = Const(lambda: Poison("nan"))
MODELS["numpy.newaxis"] = Const(lambda: None)
MODELS["math.tau"] = Const(lambda: 2 * sym.pi())
MODELS["math.e"] = Const(lambda: sym.sexp(1))


# ---------------------------------------------------------------- arithmetic dispatch
def _sc(op, a, b):
    if isinstance(a, SymBool):
        a = a.as_poly() if op not in "&|^" else a
    if isinstance(b, SymBool):
        b = b.as_poly() if op not in "&|^" else b
    if isinstance(a, Poison) or isinstance(b, Poison):
        return a if isinstance(a, Poison) else b
    if isinstance(a, bool) and op not in "&|^":
        a = int(a)
    if isinstance(b, bool) and op not in "&|^":
        b = int(b)
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(b, float) and math.isinf(b):
                return 0
            if isinstance(a, float) and math.isinf(a):
                return a if bool(b > 0) else -a
        return sym.sdiv(a, b)
    if op == "**":
        return sym.spow(a, b)
    if op in ("%", "//"):
        if isinstance(a, Poly) and a.is_const():
            a = a.const_value()
        if isinstance(b, Poly) and b.is_const():
            b = b.const_value()
        if is_num(a) and is_num(b):
            if b == 0:
                raise exc("ZeroDivisionError")
            r = a % b if op == "%" else a // b
            return r
        if op == "%":
            return smod(a, b)
        raise Unsupported("symbolic floor division")
    if op == "&":
        if isinstance(a, (SymBool, bool)) or isinstance(b, (SymBool, bool)):
            return b_and(a, b)
        return a & b
    if op == "|":
        if isinstance(a, (SymBool, bool)) or isinstance(b, (SymBool, bool)):
            return b_or(a, b)
        return a | b
    raise Unsupported(f"operator {op}")


def smod(a, b):
    """a mod b for b > 0: a - b*k, 0 <= . < b"""
    c = ctx()
    pa, pb = P(a), P(b)
    r = c.atom(("mod", pa.key(), pb.key()), "mod", deps=pa.deps() | pb.deps())
    if r.axioms is None:
        k = c.atom(("modk", pa.key(), pb.key()), "modk", is_int=True)
        r.info = (pa, pb)
        za, zb = sym.toz(pa), sym.toz(pb)
        r.axioms = lambda: [z3.Implies(zb > 0, z3.And(r.z >= 0, r.z < zb, za == zb * z3.ToReal(k.z) + r.z)),
                            z3.Implies(z3.And(zb > 0, za >= 0, za < zb), r.z == za)]
    return Poly.atom(r)


ABS = (Vec, Mat, MatT, Had, HadMat, TileRow, LenArr)


def binop(I, op, a, b):
    if op == "@" and isinstance(a, (SkewBasis, SkewInverse)):
        return dot(I, a, b)
    if op == "*" and (isinstance(a, OrthoBasis) and is_scalar(b) or isinstance(b, OrthoBasis) and is_scalar(a)):
        return a * b
    if isinstance(a, Const):
        a = a.get()
    if isinstance(b, Const):
        b = b.get()
    if isinstance(a, Poison) and isinstance(b, ABS) or isinstance(b, Poison) and isinstance(a, ABS):
        return a if isinstance(a, Poison) else b
    if isinstance(a, LenArr) and a.kind == "list" or isinstance(b, LenArr) and b.kind == "list":
        raise Unsupported("list arithmetic of symbolic length")
    if is_scalar(a) and is_scalar(b):
        return _sc(op, a, b)
    if isinstance(a, ABS) or isinstance(b, ABS):
        if isinstance(a, list):
            a = nd(a)
        if isinstance(b, list):
            b = nd(b)
        if isinstance(a, SymBool):
            a = a.as_poly()
        if isinstance(b, SymBool):
            b = b.as_poly()
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        if isinstance(a, Vec) and isinstance(b, np.ndarray) or isinstance(b, Vec) and isinstance(a, np.ndarray):
            raise Unsupported("mixing abstract and concrete vectors")
        if op == "@":
            return dot(I, a, b)
        try:
            import operator
            f = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
                 "**": operator.pow, "&": operator.and_, "|": operator.or_}[op]
        except KeyError:
            raise Unsupported(f"operator {op} on abstract values")
        try:
            return f(a, b)
        except TypeError as e:
            raise Unsupported(f"abstract operator {op}: {type(a).__name__} {type(b).__name__}")
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if isinstance(a, (list, tuple)):
            a = nd(a)
        if isinstance(b, (list, tuple)):
            b = nd(b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise exc("TypeError")
        if op == "@":
            return dot(I, a, b)
        try:
            if isinstance(a, np.ndarray) and a.ndim == 0:
                a = a.item()
            if isinstance(b, np.ndarray) and b.ndim == 0:
                b = b.item()
            if is_scalar(a) and is_scalar(b):
                return _sc(op, a, b)
            r = npmap(lambda x, y: _sc(op, x, y), nd(a), nd(b))
        except ValueError as e:
            raise exc("ValueError", str(e))
        return r
    if isinstance(a, (list, tuple, str, set, dict)) or isinstance(b, (list, tuple, str)):
        if isinstance(b, Poly):
            b = int(b)
        if isinstance(a, Poly):
            a = int(a)
        try:
            if op == "+":
                return a + b
            if op == "*":
                return a * b
            if op == "%" and isinstance(a, str):
                return "<str>"
            if op == "-":
                return a - b
            if op == "|":
                return a | b
            if op == "&":
                return a & b
        except TypeError as e:
            raise exc("TypeError", str(e))
    if a is None or b is None:
        raise exc("TypeError", "operand None")
    raise Unsupported(f"operator {op} on {type(a).__name__}, {type(b).__name__}")


def cmp_scalar(s, a, b):
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise PoisonUse((a if isinstance(a, Poison) else b).why)
    if isinstance(a, (SymBool,)) and isinstance(b, (SymBool, bool)) and s in ("==", "!="):
        return a == b if s == "==" else a != b
    if isinstance(a, SymBool):
        a = a.as_poly()
    if isinstance(b, SymBool):
        b = b.as_poly()
    if is_num(a) and isinstance(b, Poly):
        s2 = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[s]
        return b._cmp(a, s2)
    if isinstance(a, Poly):
        return a._cmp(b, s)
    return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
            "==": lambda: a == b, "!=": lambda: a != b}[s]()


def compare(I, s, a, b):
    if isinstance(a, Const):
        a = a.get()
    if isinstance(b, Const):
        b = b.get()
    if is_scalar(a) and is_scalar(b):
        return cmp_scalar(s, a, b)
    if isinstance(a, LenArr) or isinstance(b, LenArr):
        if a is None or b is None:
            return s == "!="
        if isinstance(a, LenArr):
            return a._zip(b, lambda x, y: cmp_scalar(s, x, y))
        return b._zip(a, lambda x, y: cmp_scalar(s, y, x))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return s == "!="
        try:
            return npmap(lambda x, y: cmp_scalar(s, x, y), nd(a), nd(b))
        except ValueError as e:
            raise exc("ValueError", str(e))
    if isinstance(a, (Vec, Mat)) or isinstance(b, (Vec, Mat)):
        if a is None or b is None:
            return s == "!="
        raise Unsupported("element-wise comparison of abstract vectors")
    if s in ("==", "!="):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a) is type(b):
            if len(a) != len(b):
                return s == "!="
            r = True
            for x, y in zip(a, b):
                r = b_and(r, compare(I, "==", x, y))
            return r if s == "==" else b_not(r)
        if is_scalar(a) != is_scalar(b):
            return s == "!="
        return (a == b) if s == "==" else (a != b)
    if a is None or b is None:
        raise exc("TypeError", "comparison with None")
    try:
        return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[s]()
    except TypeError as e:
        raise exc("TypeError", str(e))


# ---------------------------------------------------------------- attributes of values
def value_attr(I, o, n):
    from .interp import ModelFunc
    if isinstance(o, (np.ndarray, Vec, Mat, MatT, LenArr, TileRow, Had, HadMat, Mat3, OrthoBasis, OrthoBasisT, BCoord)):
        if n == "T":
            return o.T
        if n == "shape":
            return o.shape
        if n == "ndim":
            return o.ndim
        if n == "size":
            return o.size
        meth = {"dot": dot, "sum": np_sum, "copy": np_copy, "reshape": np_reshape, "flatten": np_flatten,
                "ravel": np_flatten, "min": np_min, "max": np_max, "mean": np_mean, "any": np_any, "all": np_all,
                "astype": lambda I, a, *k, **kk: a, "tolist": lambda I, a: np_tolist(a), "transpose": lambda I, a: a.T,
                "argmin": np_argmin, "argmax": np_argmax, "fill": np_fill, "prod": np_prod, "item": lambda I, a: a.flat[0],
                "clip": np_clip, "append": list_append, "squeeze": lambda I, a: a.squeeze(),
                "cumsum": np_cumsum, "nonzero": np_nonzero, "tobytes": None}.get(n)
        if meth is not None:
            return ModelFunc("ndarray." + n, lambda I, *a, **k: meth(I, o, *a, **k))
        if isinstance(o, LenArr) and o.kind == "list":
            raise Unsupported(f"list.{n} of symbolic length")
        return MISSING
    if isinstance(o, (Poly, Fraction, int, float)) and not isinstance(o, bool):
        if n == "shape":
            return ()
        if n == "real":
            return o
        if n in ("item", "copy"):
            return ModelFunc(n, lambda I: o)
        if n == "T":
            return o
        if n == "ndim":
            return 0
        if n == "is_integer":
            return ModelFunc(n, lambda I: is_num(o) and Fraction(o).denominator == 1)
        return MISSING
    if isinstance(o, list):
        if n == "append":
            return ModelFunc("list.append", lambda I, x: o.append(x))
        if n == "index":
            def index(I, x):
                for i, v in enumerate(o):
                    if v is x:
                        return i
                    r = I.compare(_Eq, v, x)
                    if I.truth(r):
                        return i
                raise exc("ValueError", "not in list")
            return ModelFunc("list.index", index)
        if n == "remove":
            def remove(I, x):
                for i, v in enumerate(o):
                    if v is x or I.truth(I.compare(_Eq, v, x)):
                        del o[i]
                        return
                raise exc("ValueError", "not in list")
            return ModelFunc("list.remove", remove)
        if n == "extend":
            return ModelFunc("list.extend", lambda I, x: o.extend(list(I.iterate(x))))
        if n in ("pop", "insert"):
            def f(I, *a):
                a = [int(x) if i == 0 and isinstance(x, Poly) else x for i, x in enumerate(a)]
                try:
                    return getattr(o, n)(*a)
                except IndexError as e:
                    raise exc("IndexError", str(e))
            return ModelFunc("list." + n, f)
        if n in ("copy", "clear", "reverse", "count"):
            return ModelFunc("list." + n, lambda I, *a: getattr(o, n)(*a))
        if n == "sort":
            def srt(I, key=None, reverse=False):
                o[:] = b_sorted(I, o, key=key, reverse=reverse)
            return ModelFunc("list.sort", srt)
        return MISSING
    if isinstance(o, dict):
        if n in ("get", "pop", "setdefault"):
            def g(I, k, *d):
                k = I.hashable(k)
                try:
                    return getattr(o, n)(k, *d)
                except KeyError:
                    raise exc("KeyError", k)
            return ModelFunc("dict." + n, g)
        if n in ("keys", "values", "items"):
            return ModelFunc("dict." + n, lambda I: list(getattr(o, n)()))
        return MISSING
    if isinstance(o, set):
        return MISSING
    if isinstance(o, str):
        if n in ("format", "join"):
            return ModelFunc("str." + n, lambda I, *a, **k: "<str>")
        return MISSING
    return MISSING


import ast as _ast
_Eq = _ast.Eq()


# ---------------------------------------------------------------- indexing
def _int_index(k):
    if isinstance(k, Poly):
        k = normal(sym.renorm(k))
        if is_num(k):
            return int(k)
        return None
    if isinstance(k, (int, np.integer)) and not isinstance(k, bool):
        return int(k)
    if isinstance(k, Fraction):
        if k.denominator == 1:
            return int(k)
        raise exc("TypeError", "float index")
    return None


def conv_key(I, k, shape=None):
    """make an index usable by numpy"""
    if isinstance(k, tuple):
        return tuple(conv_key(I, x) for x in k)
    if isinstance(k, slice):
        f = lambda v: None if v is None else (int(v) if not isinstance(v, Poly) else int(v))
        return slice(f(k.start), f(k.stop), f(k.step))
    if k is None or k is Ellipsis:
        return k
    if isinstance(k, (list, np.ndarray)):
        a = nd(k) if not isinstance(k, np.ndarray) else k
        if a.dtype == object:
            flat = list(a.flat)
            if flat and all(isinstance(x, (bool, SymBool, np.bool_)) for x in flat):
                r = np.zeros(a.shape, dtype=bool)
                for i in np.ndindex(a.shape):
                    r[i] = bool(a[i])
                return r
            r = np.zeros(a.shape, dtype=int)
            for i in np.ndindex(a.shape):
                r[i] = int(a[i])
            return r
        return a
    i = _int_index(k)
    if i is not None:
        return i
    if isinstance(k, (bool, SymBool)):
        return np.array(bool(k))
    if isinstance(k, Poly):
        raise Unsupported("symbolic index into a concrete array")
    raise exc("IndexError", "bad index")


def _sym_select(I, o, k):
    """concrete 1-D sequence indexed by a symbolic integer: fork"""
    n = len(o)
    for i in range(n):
        if I.truth(P(k) == i):
            return i
    for i in range(1, n + 1):
        if I.truth(P(k) == -i):
            return n - i
    raise exc("IndexError", "index out of range")


def getitem(I, o, k):
    if isinstance(o, np.ndarray):
        if isinstance(k, Poly) and _int_index(k) is None and o.ndim >= 1:
            return o[_sym_select(I, o, k)]
        kk = conv_key(I, k)
        try:
            return o[kk]
        except IndexError as e:
            raise exc("IndexError", str(e))
    if isinstance(o, (list, tuple, str, range)):
        if isinstance(k, slice):
            return o[conv_key(I, k)]
        i = _int_index(k)
        if i is None:
            if isinstance(k, Poly):
                return o[_sym_select(I, o, k)]
            raise exc("TypeError", "list index")
        try:
            return o[i]
        except IndexError as e:
            raise exc("IndexError", str(e))
    if isinstance(o, dict):
        k = I.hashable(k)
        if k not in o:
            raise exc("KeyError", k)
        return o[k]
    if isinstance(o, (Mat, MatT, Vec, OrthoBasis, BCoord, Mat3, SkewCoord, BasisStack)):
        if isinstance(k, tuple):
            k = tuple(_int_index(x) if _int_index(x) is not None else (conv_key(I, x) if isinstance(x, slice) else x) for x in k)
        elif _int_index(k) is not None:
            k = _int_index(k)
        elif isinstance(k, slice):
            k = conv_key(I, k)
        return o[k]
    if isinstance(o, LenArr):
        return len_getitem(I, o, k)
    if type(o).__module__.split(".")[0] == "networkx":
        try:
            return o[k]
        except KeyError as e:
            raise exc("KeyError", str(e))
    if o is None:
        raise exc("TypeError", "None is not subscriptable")
    if is_scalar(o):
        raise exc("TypeError", "scalar is not subscriptable")
    raise Unsupported(f"subscript of {type(o).__name__}")


def _len_index(I, o, k):
    """normalise an index of a LenArr and check bounds"""
    i = _int_index(k)
    p = P(k) if i is None else P(i)
    if i is not None and i < 0:
        p = P(o.n + i)
        if not I.truth(p >= 0):
            raise exc("IndexError", "index out of range")
        ctx().idx_terms.append((p, P(o.n)))
        return p
    inb = b_and(p >= 0, p < P(o.n))
    if inb is not True and not ctx().prove_quick(inb):
        if ctx().explorers[-1] is None or not I.truth(inb):
            raise exc("IndexError", "index out of range")
    if not any(j.t == p.t and n.t == P(o.n).t for j, n in ctx().idx_terms):
        ctx().idx_terms.append((p, P(o.n)))
    return p


def len_getitem(I, o, k):
    if o.guard is not None:
        raise Unsupported("indexing a filtered array")
    if isinstance(k, LenArr):
        # boolean mask or integer gather
        with vec.Generic(k.n) as kk:
            v = k.at(kk)
        if isinstance(v, (SymBool, bool)):
            m = k
            return LenArr(o.n, o._fn, lambda j: m.at(j), o.kind)
        of = o._fn
        kf = k._fn
        return LenArr(k.n, lambda j: of(P(kf(j))), k.guard)
    if isinstance(k, slice):
        if k == slice(None):
            return o
        if k.start is None and k.stop is None and k.step == -1:
            f = o._fn
            n = o.n
            return LenArr(n, lambda j: f(P(n - 1 - j)))
        if k.step in (None, 1) and (k.start is None or _int_index(k.start) is not None):
            s = _int_index(k.start) or 0
            f = o._fn
            if s >= 0 and k.stop is None:
                nn = smax(o.n - s, 0)
                nn = o.n - s if ctx().prove_quick(P(o.n) >= s) else nn
                return LenArr(P(nn), lambda j: f(P(j + s)), None, o.kind)
            if s == 0 and k.stop is not None:
                st = _int_index(k.stop)
                if st is not None and st < 0:
                    nn = o.n + st
                    if not ctx().prove_quick(P(nn) >= 0):
                        nn = smax(nn, 0)
                    return LenArr(P(nn), f, None, o.kind)
        raise Unsupported("slice of a symbolic length array")
    if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None):
        # matrix D x n of vectors: column access
        return len_getitem(I, o, k[1])
    if isinstance(k, tuple) and len(k) == 2 and k[1] == slice(None) and _int_index(k[0]) is not None:
        i = _int_index(k[0])
        return o.map(lambda v: v.get(i) if isinstance(v, Vec) else v[i])
    if isinstance(k, (list, np.ndarray)):
        raise Unsupported("fancy index of a symbolic length array")
    return o.at(_len_index(I, o, k))


def setitem(I, o, k, v):
    if isinstance(o, np.ndarray):
        if isinstance(v, (Vec, Mat)):
            raise Unsupported("mixing abstract and concrete arrays")
        if isinstance(k, Poly) and _int_index(k) is None:
            k = _sym_select(I, o, k)
        if o.dtype != object:
            raise Unsupported("typed array assignment")
        kk = conv_key(I, k)
        if isinstance(v, (list, tuple)):
            v = nd(v)
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v.item()
        try:
            tgt = o[kk]
            if not isinstance(tgt, np.ndarray) or (tgt.ndim == 0 and not isinstance(kk, (tuple, slice))):
                if isinstance(v, np.ndarray):
                    if v.size != 1:
                        raise exc("ValueError", "setting an array element with a sequence")
                    v = v.flat[0]
                o[kk] = v
            elif isinstance(v, np.ndarray):
                o[kk] = v
            else:
                w = np.empty(tgt.shape, dtype=object)
                for i in np.ndindex(tgt.shape):
                    w[i] = v
                o[kk] = w
        except IndexError as e:
            raise exc("IndexError", str(e))
        except ValueError as e:
            raise exc("ValueError", str(e))
        return
    if isinstance(o, list):
        i = _int_index(k)
        if i is None:
            if isinstance(k, slice):
                o[conv_key(I, k)] = list(I.iterate(v))
                return
            i = _sym_select(I, o, k)
        try:
            o[i] = v
        except IndexError as e:
            raise exc("IndexError", str(e))
        return
    if isinstance(o, dict):
        o[I.hashable(k)] = v
        return
    if isinstance(o, (Mat, MatT, Vec, Mat3, OrthoBasis, SkewCoord, BasisStack)):
        if isinstance(k, tuple):
            k = tuple(_int_index(x) if _int_index(x) is not None else (conv_key(I, x) if isinstance(x, slice) else x) for x in k)
        elif _int_index(k) is not None:
            k = _int_index(k)
        elif isinstance(k, slice):
            k = conv_key(I, k)
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v.item()
        if isinstance(v, Poison):
            raise PoisonUse(v.why)
        o[k] = v
        return
    if isinstance(o, LenArr):
        return len_setitem(I, o, k, v)
    if type(o).__module__.split(".")[0] == "networkx":
        o[k] = v
        return
    if isinstance(o, tuple):
        raise exc("TypeError", "tuple assignment")
    raise Unsupported(f"subscript assignment of {type(o).__name__}")


def merge_val(cond, a, b):
    """if cond then a else b, for scalars and vectors (indicator form)"""
    if cond is True:
        return a
    if cond is False:
        return b
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return ite(cond, a, b)
    if isinstance(a, Vec) or isinstance(b, Vec):
        if is_num(a) and a == 0:
            a = Vec(b.dim)
        if is_num(b) and b == 0:
            b = Vec(a.dim)
        i = cond.as_poly()
        return b + (a - b) * i
    if isinstance(a, SymBool):
        a = a.as_poly()
    if isinstance(b, SymBool):
        b = b.as_poly()
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, Poison) or isinstance(b, Poison):
        return ite(cond, a, b)
    if not is_scalar(a) or not is_scalar(b):
        raise Unsupported(f"merging {type(a).__name__} and {type(b).__name__}")
    if isinstance(a, float) or isinstance(b, float):
        raise Unsupported("merging infinities")
    i = cond.as_poly()
    if is_num(i):
        return a if i else b
    return normal(sym.P(i * (P(a) - P(b)) + P(b))) if not (is_num(a) and is_num(b) and a == b) else a


def len_setitem(I, o, k, v):
    old = o._fn
    if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None):
        k = k[1]
    if isinstance(k, LenArr):
        with vec.Generic(k.n) as kk:
            t = k.at(kk)
        if not isinstance(t, (SymBool, bool)):
            raise Unsupported("scatter assignment")
        m = k._fn
        if isinstance(v, LenArr):
            if v.guard is None:
                raise Unsupported("mask assignment of an unfiltered array")
            probe = LenArr(o.n, old, m)
            if not vec.same_guard(probe, v):
                raise Unsupported("mask assignment with a different mask")
            vf = v._fn
            # definedness under the mask
            vec.eval_generic(o.n, m, vf, lambda kx, x: None)

            def fn(j):
                g = m(j)
                if g is False:
                    return old(j)
                c = ctx()
                mark = c.push()
                l0 = c.lenient
                try:
                    if isinstance(g, SymBool):
                        c.pc.append(g.z)
                    c.lenient = True
                    new = vf(j)
                finally:
                    c.lenient = l0
                    del c.pc[mark[0]:]
                return merge_val(g, new, old(j))
            o._fn = fn
            return
        o._fn = lambda j: merge_val(m(j), v, old(j))
        return
    if isinstance(k, slice):
        if k == slice(None):
            if isinstance(v, LenArr):
                o._fn = v._fn
            else:
                o._fn = lambda j: v
            return
        raise Unsupported("slice assignment of a symbolic length array")
    p = _len_index(I, o, k)
    o._fn = lambda j: merge_val(_eqidx(j, p), v, old(j))


def _eqidx(j, p):
    r = P(j) == p
    return r


# ---------------------------------------------------------------- array construction
def make_array(x):
    if isinstance(x, LenArr):
        return x.copy()
    if isinstance(x, (Vec, Mat, MatT, Mat3)):
        return x.copy()
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        x = list(x)
        if x and all(isinstance(v, Vec) for v in x):
            return MatT(Mat(x[0].dim, [v.copy() for v in x]))
        if x and any(isinstance(v, Vec) for v in x):
            for v in x:
                if isinstance(v, Poison):
                    raise PoisonUse(v.why)
            raise Unsupported("mixed abstract array")
        if x and all(isinstance(v, MatT) for v in x):
            raise Unsupported("3-d abstract array")
        if x and any(isinstance(v, LenArr) for v in x):
            raise Unsupported("array of symbolic length rows")
        subs = [make_array(v) if isinstance(v, (list, tuple, np.ndarray)) else v for v in x]
        if subs and isinstance(subs[0], np.ndarray):
            shp = subs[0].shape
            if any(not isinstance(s, np.ndarray) or s.shape != shp for s in subs):
                raise exc("ValueError", "inhomogeneous array")
            r = np.empty((len(subs),) + shp, dtype=object)
            for i, s in enumerate(subs):
                r[i] = s
            return r
        if any(isinstance(s, (np.ndarray, MatT)) for s in subs):
            raise exc("ValueError", "inhomogeneous array")
        r = np.empty(len(subs), dtype=object)
        for i, s in enumerate(subs):
            r[i] = s
        return r
    if is_scalar(x):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    raise Unsupported(f"array of {type(x).__name__}")


@model("numpy.asarray", "numpy.asanyarray")
def np_asarray(I, x, dtype=None, **k):
    if isinstance(x, (LenArr, Vec, Mat, MatT, Mat3, np.ndarray)):
        return x
    return np_array(I, x, dtype)


@model("numpy.array", "numpy.copy")
def np_array(I, x, dtype=None, copy=None, **k):
    if isinstance(x, LenArr):
        return LenArr(x.n, x._fn, x.guard)
    if hasattr(x, "__iter__") and not isinstance(x, (list, tuple, np.ndarray, Vec, Mat, MatT, LenArr, Mat3)):
        x = list(I.iterate(x))
    return make_array(x)


def np_copy(I, x, **k):
    if isinstance(x, LenArr):
        return x.copy()
    return x.copy()


def _shape(I, s):
    if isinstance(s, (int, Poly, Fraction, np.integer)):
        s = (s,)
    return tuple(s)


def _dim_of(p):
    """Dim object for a symbolic dimension polynomial"""
    c = ctx()
    for d in c.inputs.get("__dims__", []):
        if isinstance(p, Poly) and (d.p.t == p.t or P(d.p - 1).t == p.t):
            return d        # D, or the D-1 coordinates orthogonal to a first base vector
    return None


def _small_count(I, x):
    """a number of true entries among finitely many conditions: case split on its value"""
    c = ctx()
    if not isinstance(x, Poly) or x.is_const() or len(x.t) > 7:
        return x
    at = [c.atoms_by_id[a] for m in x.t for a, _ in m]
    if not all(a.kind == "ind" for a in at) or any(k.denominator != 1 for k in x.t.values()):
        return x
    lo = int(sum(min(0, k) if m else k for m, k in x.t.items()))
    hi = int(sum(max(0, k) if m else k for m, k in x.t.items()))
    if hi - lo > 6:
        return x
    for v in range(lo, hi):
        if I.truth(cmp_scalar("==", x, v)):
            return v
    return hi


def _full(I, shape, v):
    s = tuple(_small_count(I, x) for x in _shape(I, shape))
    ints = [_int_index(x) for x in s]
    if all(i is not None for i in ints):
        r = np.empty(tuple(ints), dtype=object)
        for i in np.ndindex(*ints):
            r[i] = v
        return r
    d = _dim_of(s[0])
    if d is not None:
        zero = is_num(v) and v == 0
        if not zero:
            raise Unsupported("constant abstract vector")
        if len(s) == 1:
            return Vec(d)
        if len(s) == 2 and ints[1] is not None:
            return Mat(d, [Vec(d) for _ in range(ints[1])])
        if len(s) == 2:
            return LenArr(P(s[1]), lambda j: Vec(d))
        if len(s) == 3 and ints[1] is not None and ints[2] is not None:
            return Mat3(d, [[Vec(d) for _ in range(ints[2])] for _ in range(ints[1])], ints[2])
        if len(s) == 3 and ints[2] is not None and _dim_of(s[1]) is d and P(s[1] - s[0]).t == {}:
            return BasisStack(d, [None] * ints[2])
        raise Unsupported("3-d abstract array")
    d = _dim_of(s[-1])
    if d is not None and len(s) == 2 and ints[0] is not None and is_num(v) and v == 0:
        return MatT(Mat(d, [Vec(d) for _ in range(ints[0])]))
    if len(s) == 1:
        return LenArr(P(s[0]), lambda j: v)
    if len(s) == 2 and ints[0] is not None:
        m = ints[0]

        def col(j):
            r = np.empty(m, dtype=object)
            r[:] = v
            return r
        return LenArr(P(s[1]), col)
    raise Unsupported("symbolic array shape")


@model("numpy.zeros", "numpy.empty")
def np_zeros(I, shape, dtype=None, **k):
    return _full(I, shape, False if dtype is bool else 0)


@model("numpy.ones")
def np_ones(I, shape, dtype=None, **k):
    return _full(I, shape, True if dtype is bool else 1)


@model("numpy.full")
def np_full(I, shape, v, dtype=None):
    return _full(I, shape, v)


def _shape_of(x):
    if isinstance(x, (list, tuple)):
        x = make_array(x)
    if is_scalar(x):
        return ()
    return x.shape


@model("numpy.zeros_like", "numpy.empty_like")
def np_zeros_like(I, x, dtype=None):
    if isinstance(x, LenArr) and x.guard is None:
        return LenArr(x.n, lambda j: False if dtype is bool else 0)
    return _full(I, _shape_of(x), False if dtype is bool else 0)


@model("numpy.ones_like")
def np_ones_like(I, x, dtype=None):
    if isinstance(x, LenArr) and x.guard is None:
        return LenArr(x.n, lambda j: True if dtype is bool else 1)
    return _full(I, _shape_of(x), True if dtype is bool else 1)


@model("numpy.full_like")
def np_full_like(I, x, v, dtype=None):
    return _full(I, _shape_of(x), v)


def np_fill(I, a, v):
    setitem(I, a, slice(None) if a.ndim == 1 else Ellipsis, v)


@model("numpy.eye", "numpy.identity")
def np_eye(I, n, m=None, **k):
    i, j = _int_index(n), _int_index(m) if m is not None else None
    if isinstance(n, tuple):
        raise exc("TypeError", "eye of a tuple")
    if i is None:
        raise Unsupported("identity of symbolic size")
    j = i if m is None else j
    r = np.empty((i, j), dtype=object)
    for a in range(i):
        for b in range(j):
            r[a, b] = 1 if a == b else 0
    return r


@model("numpy.arange")
def np_arange(I, *a, **k):
    if len(a) == 1 and _int_index(a[0]) is None:
        return LenArr(P(a[0]), lambda j: j)
    if all(_int_index(x) is not None for x in a):
        return nd(list(range(*[_int_index(x) for x in a])))
    raise Unsupported("arange")


@model("numpy.linspace")
def np_linspace(I, a, b, n=50, **k):
    i = _int_index(n)
    if i is None:
        raise Unsupported("linspace of symbolic size")
    if i == 1:
        return nd([a])
    end = k.get("endpoint", True)
    d = i - 1 if end else i
    return nd([binop(I, "+", a, binop(I, "*", binop(I, "-", b, a), Fraction(q, d))) for q in range(i)])


@model("numpy.diag")
def np_diag(I, v, **k):
    v = nd(v)
    if v.ndim == 1:
        r = _full(I, (len(v), len(v)), 0)
        for i, x in enumerate(v):
            r[i, i] = x
        return r
    return nd([v[i, i] for i in range(min(v.shape))])


@model("numpy.tile")
def np_tile(I, a, reps):
    reps = reps if isinstance(reps, tuple) else (reps,)
    ri = [_int_index(r) for r in reps]
    if isinstance(a, (list, tuple)) and all(is_scalar(v) for v in a):
        a = nd(list(a))
    if isinstance(a, Vec):
        if len(reps) == 2 and ri[1] == 1 and ri[0] is not None:
            return MatT(Mat(a.dim, [a.copy() for _ in range(ri[0])]))
        if len(reps) == 2 and ri[1] == 1:
            return LenArrT(LenArr(P(reps[0]), lambda j: a))
        raise Unsupported("tile")
    if isinstance(a, np.ndarray) and any(r is None for r in ri):
        d = _dim_of(reps[0])
        if d is not None and len(reps) == 2 and ri[1] == 1 and a.ndim == 1:
            return TileRow(d, a)
        raise Unsupported("tile")
    if isinstance(a, LenArr):
        raise Unsupported("tile of symbolic length")
    if is_scalar(a):
        a = nd([a])
    if any(r is None for r in ri):
        raise Unsupported("tile")
    return np.tile(nd(a), tuple(ri))


class LenArrT:
    def __init__(self, a):
        self.T = a


def _cat(I, xs, axis):
    xs = list(I.iterate(xs))
    if any(isinstance(x, Mat3) for x in xs):
        if axis != 1 or not all(isinstance(x, Mat3) for x in xs):
            raise Unsupported("concatenation of 3-d abstract arrays")
        if len({x.m for x in xs}) != 1:
            raise exc("ValueError", "shape mismatch")
        return Mat3(xs[0].dim, [[c.copy() for c in r] for x in xs for r in x.cols], xs[0].m)
    if any(isinstance(x, (Mat, MatT, Vec)) for x in xs):
        if axis == 1 and all(isinstance(x, (Mat,)) or (isinstance(x, np.ndarray) and x.size == 0) for x in xs):
            cols = []
            dim = None
            for x in xs:
                if isinstance(x, Mat):
                    cols += [c.copy() for c in x.cols]
                    dim = x.dim
            return Mat(dim, cols)
        if axis == 0 and all(isinstance(x, MatT) for x in xs):
            return MatT(Mat(xs[0].m.dim, [c.copy() for x in xs for c in x.m.cols]))
        raise Unsupported("concatenation of abstract arrays")
    if any(isinstance(x, LenArr) for x in xs):
        if len(xs) == 2 and axis in (0, None):
            return _cat_len(xs[0], xs[1])
        raise Unsupported("concatenation of symbolic length arrays")
    try:
        return np.concatenate([nd(x) for x in xs], axis=axis)
    except ValueError as e:
        raise exc("ValueError", str(e))


def _cat_len(a, b):
    if isinstance(a, LenArr) and a.guard is None:
        if isinstance(b, LenArr):
            raise Unsupported("concatenation of two symbolic length arrays")
        b = nd(b)
        b = b.reshape(1) if b.ndim == 0 else b
        if b.ndim != 1:
            raise Unsupported("concatenation")
        m = len(b)
        n, f = a.n, a._fn

        def fn(j):
            j = P(j)
            r = None
            for i in range(m):
                cond = j == P(n + i)
                if cond is True:
                    return b[i]
                if cond is False:
                    continue
                r = (cond, b[i]) if r is None else r
            if r is None or m > 1:
                if m == 1:
                    return f(j)
                v = f(j)
                for i in range(m):
                    v = merge_val(j == P(n + i), b[i], v)
                return v
            if ctx().prove_quick(j < P(n)):
                return f(j)
            return merge_val(r[0], r[1], f(j))
        out = LenArr(P(n + m), fn, None, a.kind)
        out.parts = (fn, a.copy(), b)
        return out
    if isinstance(b, LenArr) and b.guard is None:
        a = nd(a)
        a = a.reshape(1) if a.ndim == 0 else a
        m = len(a)
        n, f = b.n, b._fn

        def fn(j):
            v = None
            j = P(j)
            i = _int_index(j)
            if i is not None:
                return a[i] if i < m else f(P(i - m))
            v = f(P(j - m))
            for i in range(m):
                v = merge_val(j == i, a[i], v)
            return v
        out = LenArr(P(n + m), fn, None, b.kind)
        out.parts = (fn, b.copy(), a)
        return out
    raise Unsupported("concatenation of symbolic length arrays")


@model("numpy.append")
def np_append(I, a, b, axis=None):
    if isinstance(a, LenArr) or isinstance(b, LenArr):
        return _cat_len(a, b)
    if isinstance(a, (Mat, MatT, Vec, Mat3)) or isinstance(b, (Mat, MatT, Vec, Mat3)):
        return _cat(I, [a, b], axis)
    a, b = nd(a), nd(b)
    if axis is None:
        return np.concatenate([a.ravel(), b.ravel()])
    try:
        return np.append(a, b, axis=axis)
    except ValueError as e:
        raise exc("ValueError", str(e))


@model("numpy.concatenate")
def np_concatenate(I, xs, axis=0):
    return _cat(I, xs, axis)


@model("numpy.hstack")
def np_hstack(I, xs):
    xs = list(I.iterate(xs))
    if any(isinstance(x, Mat) for x in xs):
        return _cat(I, xs, 1)
    if any(isinstance(x, LenArr) for x in xs):
        return _cat(I, xs, 0)
    return np.hstack([nd(x) if not is_scalar(x) else nd([x]) for x in xs])


@model("numpy.vstack")
def np_vstack(I, xs):
    xs = list(I.iterate(xs))
    if xs and all(isinstance(x, Vec) for x in xs):
        return MatT(Mat(xs[0].dim, [x.copy() for x in xs]))
    if any(isinstance(x, (MatT, Vec)) for x in xs):
        cols = []
        for x in xs:
            cols += [x] if isinstance(x, Vec) else list(x.m.cols)
        return MatT(Mat(cols[0].dim, [c.copy() for c in cols]))
    return np.vstack([nd(x) for x in xs])


@model("numpy.column_stack")
def np_column_stack(I, xs):
    xs = list(I.iterate(xs))
    if xs and all(isinstance(x, Vec) for x in xs):
        return Mat(xs[0].dim, [x.copy() for x in xs])
    return np.column_stack([nd(x) for x in xs])


@model("numpy.stack")
def np_stack(I, xs, axis=0):
    xs = list(I.iterate(xs))
    if xs and all(isinstance(x, Vec) for x in xs):
        m = Mat(xs[0].dim, [x.copy() for x in xs])
        return m if axis in (1, -1) else MatT(m)
    if xs and all(isinstance(x, Mat) for x in xs) and axis == 2:
        return Mat3(xs[0].dim, [[x.cols[i].copy() for x in xs] for i in range(len(xs[0].cols))])
    return np.stack([nd(x) for x in xs], axis=axis)


# -------- D x n x 2 arrays of abstract vectors (rotation bases)
class OrthoBasis:
    """Orthonormal basis of the whole (abstract) space whose first column is b0.

    Coordinates are represented isometrically by the vector itself, and the D-1 coordinates
    after the first one by the component orthogonal to b0."""
    __array_ufunc__ = None

    def __init__(self, b0, sgn=1):
        """sgn -1: the negative of the basis with first column -b0"""
        self.dim, self.b0, self.sgn = b0.dim, b0, sgn

    def __deepcopy__(self, memo):
        return OrthoBasis(self.b0.copy(), self.sgn)

    def copy(self):
        return OrthoBasis(self.b0.copy(), self.sgn)

    def __mul__(self, k):
        if is_scalar(k) and not isinstance(k, bool):
            k = normal(sym.renorm(k)) if isinstance(k, Poly) else k
            if is_num(k) and k in (1, -1):
                return OrthoBasis(self.b0 * k, int(self.sgn * k))
        raise Unsupported("scaled abstract basis")

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    @property
    def shape(self):
        return (self.dim.p, self.dim.p)

    @property
    def ndim(self):
        return 2

    @property
    def T(self):
        return OrthoBasisT(self)

    def e1(self):
        """second column: some unit vector orthogonal to the first"""
        c = ctx()
        tab = c.inputs.setdefault("__e1__", {})
        key = tuple(sorted((a.id, P(x).key()) for a, x in (self.b0 * self.sgn).renorm().items()))
        if key not in tab:
            v = Vec(self.dim, {vec.VAtom(f"e1_{len(tab)}", norm=1): 1})
            c.assume(P(v.dot(self.b0)) == 0)
            tab[key] = v
        return tab[key] * self.sgn if self.sgn < 0 else tab[key].copy()

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and k[1] in (0, 1):
            return self.b0.copy() if k[1] == 0 else self.e1()
        raise Unsupported("columns of an abstract basis")


    def __setitem__(self, k, v):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and k[1] == 0 and isinstance(v, Vec):
            if self.sgn < 0:
                raise Unsupported("assignment into a negated basis")
            self.__class__, self.first = SkewBasis, v.copy()
            return
        raise Unsupported("assignment into an abstract basis")


class BasisStack:
    """D x D x n array of orthonormal bases (None: zeros)"""
    __array_ufunc__ = None

    def __init__(self, dim, slots):
        self.dim, self.slots = dim, slots

    @property
    def shape(self):
        return (self.dim.p, self.dim.p, len(self.slots))

    @property
    def ndim(self):
        return 3

    def copy(self):
        return BasisStack(self.dim, [b if b is None else b.copy() for b in self.slots])

    def __deepcopy__(self, memo):
        return self.copy()

    def _at(self, k):
        if not isinstance(k, int):
            raise Unsupported("index of an array of bases")
        if not -len(self.slots) <= k < len(self.slots):
            raise exc("IndexError", "out of range")
        return k

    def __getitem__(self, k):
        a = slice(None)
        if isinstance(k, tuple) and len(k) == 3 and k[0] == a:
            if k[1] == a:
                b = self.slots[self._at(k[2])]
                if b is None:
                    raise Unsupported("zero matrix")
                return b.copy()
            if k[1] == 0:
                col = lambda b: Vec(self.dim) if b is None else b.b0.copy()
                return Mat(self.dim, [col(b) for b in self.slots]) if k[2] == a else col(self.slots[self._at(k[2])])
        raise Unsupported("index of an array of bases")

    def __setitem__(self, k, v):
        a = slice(None)
        if isinstance(k, tuple) and len(k) == 3 and k[0] == a and k[1] == a and isinstance(v, OrthoBasis):
            self.slots[self._at(k[2])] = v.copy()
            return
        raise Unsupported("assignment into an array of bases")


class SkewBasis:
    """an orthonormal basis (first column b0) whose first column was replaced by another vector"""
    __array_ufunc__ = None

    @property
    def shape(self):
        return (self.dim.p, self.dim.p)


class SkewInverse:
    __array_ufunc__ = None

    def __init__(self, b):
        self.b = b


class SkewCoord:
    """coordinates: x0 of the replaced column; the others as the vector rest, orthogonal to b0"""
    __array_ufunc__ = None

    def __init__(self, b, x0, rest):
        self.b, self.x0, self.rest = b, x0, rest

    def __getitem__(self, k):
        if k == 0:
            return self.x0
        if k == slice(1, None):
            return self.rest.copy()
        raise Unsupported("coordinates in a skew basis")

    def __setitem__(self, k, v):
        if k == 0 and is_scalar(v):
            self.x0 = v
            return
        raise Unsupported("coordinates in a skew basis")


class OrthoBasisT:
    __array_ufunc__ = None

    def __init__(self, b):
        self.b = b

    @property
    def T(self):
        return self.b

    @property
    def shape(self):
        return self.b.shape

    @property
    def ndim(self):
        return 2


class BCoord:
    """coordinates of v in an abstract orthonormal basis"""
    __array_ufunc__ = None

    def __init__(self, b, v):
        self.b, self.v = b, v

    @property
    def shape(self):
        return (self.b.dim.p,)

    @property
    def ndim(self):
        return 1

    @property
    def T(self):
        return self

    def __getitem__(self, k):
        if k == 0:
            return self.b.b0.dot(self.v)
        if k == slice(1, None):
            return self.v - self.b.b0 * self.b.b0.dot(self.v)
        raise Unsupported("coordinates in an abstract basis")


def _fallback(I, name, *a, **k):
    return I.call(I.load(name), list(a), k)


@model("collections.namedtuple")
def c_namedtuple(I, name, fields, **kw):
    import collections
    return collections.namedtuple(name, fields, **kw)


@model("vartools.linalg.get_orthogonal_basis")
def vt_orthogonal_basis(I, vector, normalize=True):
    if not isinstance(vector, Vec):
        return _fallback(I, "vartools.linalg:get_orthogonal_basis", vector, normalize=normalize)
    ctx().assumed.add("vartools.linalg.get_orthogonal_basis")
    n = vector.norm()
    if I.truth(cmp_scalar("==", n, 0)):
        raise exc("ValueError", "Zero vector has no orthogonal basis.")
    return OrthoBasis(vector / n if normalize else vector.copy())


@model("vartools._angle.get_angle_from_vector")
def vt_angle_from_vector(I, direction, base):
    if not isinstance(base, OrthoBasis):
        return _fallback(I, "vartools._angle:get_angle_from_vector", direction, base)
    ctx().assumed.add("vartools.directional_space.get_angle_from_vector")
    n = direction.norm()
    if I.truth(cmp_scalar("==", n, 0)):
        raise sym.PoisonUse("angle of a zero vector")
    v = direction / n
    c0 = base.b0.dot(v)
    ctx().assume(b_and(P(c0) <= 1, P(c0) >= -1))       # Cauchy-Schwarz for unit vectors
    perp = v - base.b0 * c0
    s = perp.norm()
    if I.truth(cmp_scalar("==", s, 0)):
        if I.truth(cmp_scalar("<", c0, 0)):
            return base.e1() * sym.pi() * base.sgn
        return Vec(v.dim)
    return perp / s * (sym.sarccos(c0) * base.sgn)


@model("vartools._angle.get_vector_from_angle")
def vt_vector_from_angle(I, angle, base):
    if not isinstance(base, OrthoBasis):
        return _fallback(I, "vartools._angle:get_vector_from_angle", angle, base)
    ctx().assumed.add("vartools.directional_space.get_vector_from_angle")
    n = angle.norm()
    if I.truth(cmp_scalar("==", n, 0)):
        return base.b0.copy()
    return base.b0 * sym.scos(n) + angle / n * (sym.ssin(n) * base.sgn)


@model("vartools.math.get_intersection_with_circle")
def vt_intersection_with_circle(I, start_position, direction, radius, only_positive=True, intersection_type=None):
    """contract of the dependency: the point start + f * direction on the circle, f the larger (FAR, or positive) root"""
    def body():
        return _fallback(I, "vartools.math:get_intersection_with_circle", start_position, direction, radius,
                         only_positive=only_positive, intersection_type=intersection_type)
    kind = getattr(intersection_type, "name", None)
    if not (isinstance(start_position, Vec) and isinstance(direction, Vec) and (
            kind == "FAR" or (kind is None and only_positive is True))):
        return body()
    c = ctx()
    c.assumed.add("vartools.math.get_intersection_with_circle")
    aa = direction.dot(direction)
    if I.truth(cmp_scalar("==", direction.norm(), 0)):
        raise sym.PoisonUse("intersection along a zero direction")
    end = start_position + direction
    if not any(c.prove_quick(b) if isinstance(b, sym.SymBool) else b for b in (
            cmp_scalar("<=", end.norm(), radius), cmp_scalar("<=", start_position.norm(), radius))):
        return body()
    f = sym.fresh("reach")
    a = vec.VAtom("on_circle", norm=radius)
    for b in list(c.gram_used.values()):
        if b is not a:
            x = Vec(start_position.dim, {b: 1})
            vec.set_gram(a, b, start_position.dot(x) + f * direction.dot(x))
    out = Vec(start_position.dim, {a: 1})
    bb = start_position.dot(direction)
    c.assume(cmp_scalar("==", aa * f * f + 2 * f * bb + start_position.dot(start_position) - P(radius) * radius, 0))
    c.assume(cmp_scalar(">=", aa * f + bb, 0))
    if c.prove_quick(cmp_scalar("<=", end.norm(), radius)):
        c.assume(cmp_scalar(">=", f, 1))       # the end of the direction lies inside
        c.assume(cmp_scalar(">=", (f - 1) * aa, 0))
        c.assume(cmp_scalar("==", (out - end).dot(out - end) * aa, (f - 1) * (f - 1) * aa * aa))   # out - end = (f - 1) direction
    if c.prove_quick(cmp_scalar("<=", start_position.norm(), radius)):
        c.assume(cmp_scalar(">=", f, 0))
    return out


class Mat3:
    """D x n x m array of abstract vectors; cols[i][j]."""
    __array_ufunc__ = None

    def __init__(self, dim, cols, m=2):
        self.dim, self.cols = dim, cols
        self.m = len(cols[0]) if cols else m

    def __deepcopy__(self, memo):
        return Mat3(self.dim, [[c.copy() for c in r] for r in self.cols], self.m)

    def copy(self):
        return self.__deepcopy__({})

    @property
    def shape(self):
        return (self.dim.p, len(self.cols), self.m)

    @property
    def ndim(self):
        return 3

    @property
    def size(self):
        return self.dim.p * len(self.cols) * self.m

    def flatcols(self):
        return [c for r in self.cols for c in r]

    def __getitem__(self, k):
        if isinstance(k, tuple) and k[0] == slice(None):
            if len(k) == 2:
                k = (k[0], k[1], slice(None))
            i, j = k[1], k[2]
            n = len(self.cols)

            def chk(i, n):
                if isinstance(i, int) and not (-n <= i < n):
                    raise exc("IndexError", "out of range")
            chk(i, n)
            chk(j, self.m)
            if isinstance(i, int) and isinstance(j, int):
                return self.cols[i][j]
            if isinstance(i, int):
                return Mat(self.dim, self.cols[i][j])
            rows = self.cols[i] if isinstance(i, slice) else [self.cols[int(q)] for q in i]
            if isinstance(j, int):
                return Mat(self.dim, [r[j] for r in rows])
            return Mat3(self.dim, [r[j] for r in rows], self.m)
        raise Unsupported("3-d abstract index")

    def __setitem__(self, k, v):
        t = self[k]
        if isinstance(t, Vec) and isinstance(v, Vec):
            t.t = dict(v.t)
            return
        if isinstance(t, Mat) and isinstance(v, Mat):
            a, b = t.cols, [c.copy() for c in v.cols]
        elif isinstance(t, Mat3) and isinstance(v, Mat3):
            a, b = t.flatcols(), [c.copy() for c in v.flatcols()]
        else:
            raise Unsupported("3-d abstract assignment")
        if len(a) != len(b):
            raise exc("ValueError", "shape mismatch")
        for x, y in zip(a, b):
            x.t = y.t


vec.Mat3 = Mat3
ABS = ABS + (Mat3,)


def np_reshape(I, a, *shape, **k):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    ints = [_int_index(s) for s in shape]
    if isinstance(a, Mat3):
        if len(shape) == 2 and ints[1] in (-1, len(a.cols) * a.m) and _dim_of(shape[0]) is a.dim:
            return Mat(a.dim, a.flatcols())
        raise Unsupported("reshape")
    if isinstance(a, Mat):
        if len(shape) == 3 and _dim_of(shape[0]) is a.dim and ints[2]:
            m = ints[2]
            if len(a.cols) % m:
                raise exc("ValueError", "reshape")
            n = len(a.cols) // m
            if ints[1] not in (-1, n):
                raise exc("ValueError", "reshape")
            return Mat3(a.dim, [[a.cols[i * m + j] for j in range(m)] for i in range(n)], m)
        if len(shape) == 2 and _dim_of(shape[0]) is a.dim:
            return a
        raise Unsupported("reshape")
    if isinstance(a, Vec):
        if len(shape) == 2 and ints[1] == 1:
            return Mat(a.dim, [a])
        if len(shape) == 2 and ints[0] == 1:
            return MatT(Mat(a.dim, [a]))
        if len(shape) == 1:
            return a
        raise Unsupported("reshape")
    if isinstance(a, LenArr):
        if len(shape) == 1:
            return a
        raise Unsupported("reshape of symbolic length")
    if any(i is None for i in ints):
        raise Unsupported("symbolic reshape")
    try:
        return nd(a).reshape(tuple(ints))
    except ValueError as e:
        raise exc("ValueError", str(e))


MODELS["numpy.reshape"] = np_reshape


@model("numpy.swapaxes")
def np_swapaxes(I, a, axis1, axis2):
    i, j = axis1, axis2
    if isinstance(a, (list, tuple)) and a and all(isinstance(x, Mat) for x in a):
        if (i, j) in ((0, 1), (1, 0)):
            return Mat3(a[0].dim, [[c for c in x.cols] for x in a])
        raise Unsupported("swapaxes")
    if isinstance(a, Mat3) and a.cols and {i % 3, j % 3} == {1, 2}:
        return Mat3(a.dim, [[r[q] for r in a.cols] for q in range(a.m)])
    if isinstance(a, Mat3) or isinstance(a, (Mat, MatT)):
        raise Unsupported("swapaxes")
    return np.swapaxes(nd(a), i, j)


@model("numpy.transpose")
def np_transpose(I, a, axes=None):
    if axes is not None:
        return np.transpose(nd(a), axes)
    return a.T


@model("numpy.expand_dims")
def np_expand_dims(I, a, axis):
    return np.expand_dims(nd(a), axis)


@model("numpy.squeeze")
def np_squeeze(I, a, axis=None):
    return nd(a).squeeze(axis)


@model("numpy.atleast_1d")
def np_atleast_1d(I, a):
    if is_scalar(a):
        return nd([a])
    return a


def np_flatten(I, a, *k):
    if isinstance(a, (Vec, LenArr)):
        return a.copy()
    return nd(a).flatten()


MODELS["numpy.ravel"] = np_flatten


def np_tolist(a):
    return a.tolist()


# ---------------------------------------------------------------- elementwise functions
def elementwise(f):
    def g(I, x, *a, out=None, where=None, **k):
        if where is not None or out is not None:
            raise Unsupported("ufunc out/where")
        if isinstance(x, Const):
            x = x.get()
        if is_scalar(x):
            return f(x)
        if isinstance(x, LenArr):
            return x.map(f)
        if isinstance(x, (list, tuple)):
            x = make_array(x)
        if isinstance(x, np.ndarray):
            if x.ndim == 0:
                return f(x.item())
            return npmap(f, x)
        if isinstance(x, TileRow):
            return TileRow(x.dim, npmap(f, x.row))
        if x is None:
            raise exc("TypeError", "ufunc of None")
        raise Unsupported("element-wise function of an abstract vector")
    return g


def _isnan(x):
    return isinstance(x, Poison) and not isinstance(x, sym.GuardedPoison)


def _inf_aware(f, lim):
    def g(x):
        if isinstance(x, float) and math.isinf(x):
            return lim(x)
        return f(x)
    return g


_sign = lambda x: sym.ssign(x) if isinstance(x, Poly) else (0 if x == 0 else (1 if x > 0 else -1))
for _n, _f in {
    "sqrt": ssqrt, "cos": sym.scos, "sin": sym.ssin, "tan": sym.stan, "arccos": sym.sarccos, "arcsin": sym.sarcsin,
    "arctan": sym.sarctan, "exp": sym.sexp, "log": sym.slog, "abs": sabs, "absolute": sabs, "fabs": sabs,
    "sign": _sign, "square": lambda x: x * x, "negative": lambda x: -x,
    "degrees": lambda x: x * 180 / sym.pi(), "radians": lambda x: x * sym.pi() / 180,
    "deg2rad": lambda x: x * sym.pi() / 180, "rad2deg": lambda x: x * 180 / sym.pi(),
}.items():
    MODELS["numpy." + _n] = elementwise(_f)
for _n, _f in {"sqrt": ssqrt, "cos": sym.scos, "sin": sym.ssin, "tan": sym.stan, "acos": sym.sarccos,
               "asin": sym.sarcsin, "atan": sym.sarctan, "exp": sym.sexp, "log": sym.slog, "fabs": sabs,
               "radians": lambda x: x * sym.pi() / 180, "degrees": lambda x: x * 180 / sym.pi()}.items():
    def _mk(f):
        def g(I, x):
            if isinstance(x, np.ndarray):
                x = x.item()
            if not is_scalar(x):
                if isinstance(x, (Vec, LenArr)):
                    raise exc("TypeError", "only scalars")
                raise exc("TypeError", "must be real number")
            return f(x)
        return g
    MODELS["math." + _n] = _mk(_f)
MODELS["numpy.isnan"] = lambda I, x: np_isnan(I, x)
MODELS["math.isnan"] = lambda I, x: np_isnan(I, x)
MODELS["math.isinf"] = lambda I, x: isinstance(x, float) and math.isinf(x)
MODELS["numpy.isfinite"] = lambda I, x: _map_any(I, x, lambda v: not _isnan(v) and not (isinstance(v, float) and math.isinf(v)))
MODELS["numpy.isinf"] = lambda I, x: _map_any(I, x, lambda v: isinstance(v, float) and math.isinf(v))
MODELS["math.hypot"] = lambda I, *a: ssqrt(sum((x * x for x in a), 0), known=True)
MODELS["numpy.hypot"] = lambda I, a, b: ssqrt(a * a + b * b, known=True)


def _map_any(I, x, f):
    if isinstance(x, np.ndarray):
        return npmap(f, x)
    if isinstance(x, LenArr):
        return x.map(f)
    if isinstance(x, (Vec, Mat)):
        return f(0)
    return f(x)


def np_isnan(I, x):
    if isinstance(x, (Vec, Mat, MatT, Mat3)):
        return False
    if isinstance(x, LenArr):
        return x.map(lambda v: False)
    if isinstance(x, (list, tuple)):
        if any(isinstance(v, (Mat, Vec)) for v in x):
            return False
        x = make_array(x)
    if isinstance(x, np.ndarray):
        return npmap(_isnan, x)
    return _isnan(x)


def binary(f):
    def g0(I, a, b, out=None, **k):
        if set(k) - {"dtype"}:
            raise Unsupported(f"ufunc arguments {sorted(k)}")
        r = g(I, a, b)
        if out is not None:
            if isinstance(out, LenArr):
                if out.guard is not None or not isinstance(r, LenArr):
                    raise Unsupported("ufunc out argument")
                out.set_from(r)
            elif isinstance(out, np.ndarray):
                out[...] = r
            else:
                raise Unsupported("ufunc out argument")
            return out
        return r

    def g(I, a, b):
        if isinstance(a, Const):
            a = a.get()
        if isinstance(b, Const):
            b = b.get()
        if is_scalar(a) and is_scalar(b):
            return f(a, b)
        if isinstance(a, LenArr):
            return a._zip(b, f)
        if isinstance(b, LenArr):
            return b._zip(a, lambda x, y: f(y, x))
        if isinstance(a, (Vec, Mat)) or isinstance(b, (Vec, Mat)):
            raise Unsupported("element-wise function of an abstract vector")
        return npmap(f, nd(a), nd(b))
    return g0


MODELS["numpy.arctan2"] = binary(sym.satan2)
MODELS["math.atan2"] = lambda I, y, x: sym.satan2(_item(y), _item(x))
MODELS["numpy.maximum"] = binary(smax)
MODELS["numpy.minimum"] = binary(smin)
MODELS["numpy.fmax"] = binary(smax)
MODELS["numpy.fmin"] = binary(smin)
MODELS["numpy.power"] = binary(sym.spow)
MODELS["math.pow"] = binary(sym.spow)
MODELS["numpy.logical_and"] = binary(b_and)
MODELS["numpy.logical_or"] = binary(b_or)
MODELS["numpy.logical_not"] = elementwise(b_not)
MODELS["numpy.add"] = lambda I, a, b: binop(I, "+", a, b)
MODELS["numpy.subtract"] = lambda I, a, b: binop(I, "-", a, b)
MODELS["numpy.multiply"] = lambda I, a, b: binop(I, "*", a, b)
MODELS["numpy.divide"] = lambda I, a, b: binop(I, "/", a, b)
MODELS["numpy.true_divide"] = MODELS["numpy.divide"]
MODELS["numpy.greater"] = lambda I, a, b: compare(I, ">", a, b)
MODELS["numpy.less"] = lambda I, a, b: compare(I, "<", a, b)
MODELS["numpy.greater_equal"] = lambda I, a, b: compare(I, ">=", a, b)
MODELS["numpy.less_equal"] = lambda I, a, b: compare(I, "<=", a, b)
MODELS["numpy.equal"] = lambda I, a, b: compare(I, "==", a, b)
MODELS["numpy.mod"] = binary(lambda a, b: _sc("%", a, b))
MODELS["math.fmod"] = MODELS["numpy.mod"]


def _item(x):
    if isinstance(x, np.ndarray):
        return x.item()
    return x


@model("numpy.clip")
def np_clip(I, x, lo=None, hi=None, a_min=None, a_max=None, **k):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    r = x
    if lo is not None:
        r = MODELS["numpy.maximum"](I, r, lo)
    if hi is not None:
        r = MODELS["numpy.minimum"](I, r, hi)
    return r


@model("numpy.where")
def np_where(I, c, a=None, b=None):
    if a is None:
        return np_nonzero(I, c)
    if isinstance(c, LenArr):
        fa = a._fn if isinstance(a, LenArr) else (lambda j: a)
        fb = b._fn if isinstance(b, LenArr) else (lambda j: b)
        cf = c._fn
        return LenArr(c.n, lambda j: merge_val(cf(j), fa(j), fb(j)), c.guard)
    if is_scalar(c):
        if isinstance(c, SymBool) and is_scalar(a) and is_scalar(b):
            return ite(c, a, b)
        return a if I.truth(c) else b
    return npmap(lambda x, y, z: ite(x, y, z), nd(c), nd(a), nd(b))


def np_nonzero(I, c):
    if isinstance(c, (LenArr, Vec)):
        raise Unsupported("nonzero of a symbolic array")
    c = nd(c)
    return tuple(nd(list(int(q) for q in ix)) for ix in np.nonzero(npmap(lambda v: I.truth(v), c).astype(bool)))


MODELS["numpy.nonzero"] = np_nonzero
MODELS["numpy.flatnonzero"] = lambda I, c: np_nonzero(I, nd(c).ravel())[0]
MODELS["numpy.argwhere"] = lambda I, c: np.array(np_nonzero(I, c)).T


# ---------------------------------------------------------------- reductions
def _ints(axis):
    return axis


@model("numpy.sum")
def np_sum(I, x, axis=None, **k):
    if isinstance(x, Had):
        return x.sum()
    if isinstance(x, (HadMat, Mat, MatT)):
        return x.sum(axis=axis)
    if isinstance(x, Vec):
        raise Unsupported("sum of the coordinates of an abstract vector")
    if isinstance(x, LenArr):
        if axis == 0:
            with vec.Generic(x.n) as kk:
                v = x.at(kk)
            if isinstance(v, (Had,)):
                return x.map(lambda h: h.sum())
            if isinstance(v, np.ndarray):
                return x.map(lambda h: np_sum(I, h))
        if axis == 1:
            return vec_lsum(I, x)
        return vec.lsum(x)
    if is_scalar(x):
        return x.as_poly() if isinstance(x, SymBool) else x
    x = make_array(x) if isinstance(x, (list, tuple)) else x
    if isinstance(x, (Mat, MatT)):
        return x.sum(axis=axis)
    if not isinstance(x, np.ndarray):
        raise Unsupported(f"sum of {type(x).__name__}")
    if axis is None:
        out = 0
        for v in x.flat:
            out = _sc("+", out, v)
        return out
    r = np.apply_along_axis(lambda v: _wrap(_fold(v)), axis, _objs(x)) if False else _reduce(x, axis, _fold)
    if k.get("keepdims"):
        return np.expand_dims(nd(r), axis)
    return r


def vec_lsum(I, x):
    with vec.Generic(x.n) as kk:
        v = x.at(kk)
    if isinstance(v, Vec):
        return vec.lsum(x)
    if isinstance(v, np.ndarray):
        r = np.empty(v.shape, dtype=object)
        for i in range(len(v)):
            r[i] = vec.lsum(x.map(lambda q, i=i: q[i]))
        return r
    raise exc("AxisError", "axis 1 is out of bounds")


def _fold(v):
    out = 0
    for q in v:
        out = _sc("+", out, q)
    return out


def _reduce(x, axis, f):
    x = nd(x)
    if not -x.ndim <= axis < x.ndim:
        raise exc("ValueError", "axis out of bounds")
    m = np.moveaxis(x, axis, -1)
    if m.ndim == 1:
        return f(list(m))
    r = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(m.shape[:-1]):
        r[i] = f(list(m[i]))
    return r


def np_mean(I, x, axis=None, **k):
    if isinstance(x, LenArr):
        s = np_sum(I, x, axis=axis)
        return binop(I, "/", s, x.length())
    if isinstance(x, MatT) and axis == 0:
        return x.sum(axis=0) / len(x)
    if isinstance(x, Mat) and axis == 1:
        return x.sum(axis=1) / len(x.cols)
    x = nd(x)
    s = np_sum(I, x, axis=axis)
    return binop(I, "/", s, x.size if axis is None else x.shape[axis])


MODELS["numpy.mean"] = np_mean


@model("numpy.average")
def np_average(I, x, axis=None, weights=None):
    if weights is None:
        return np_mean(I, x, axis=axis)
    raise Unsupported("weighted average")


def np_prod(I, x, axis=None, **k):
    if isinstance(x, (LenArr, Vec)):
        raise Unsupported("product")

    def f(v):
        out = 1
        for q in v:
            out = _sc("*", out, q)
        return out
    x = nd(x)
    return f(list(x.flat)) if axis is None else _reduce(x, axis, f)


MODELS["numpy.prod"] = np_prod


def _minmax(f, mx):
    def g(I, x, axis=None, **k):
        if isinstance(x, LenArr):
            ne = vec.nonempty(x)
            if not I.truth(ne):
                if "initial" in k:
                    return k["initial"]
                raise exc("ValueError", "zero-size array")
            r = vec.lmin(x, mx)
            return f(r, k["initial"]) if "initial" in k else r
        if isinstance(x, (Vec, Mat, MatT)):
            raise Unsupported("extremum of an abstract vector")
        if is_scalar(x):
            return x
        x = nd(x)

        def h(v):
            if not v:
                raise exc("ValueError", "zero-size array")
            out = v[0]
            for q in v[1:]:
                out = f(out, q)
            return out
        return h(list(x.flat)) if axis is None else _reduce(x, axis, h)
    return g


np_min = _minmax(smin, False)
np_max = _minmax(smax, True)
for _n in ("min", "amin", "nanmin"):
    MODELS["numpy." + _n] = np_min
for _n in ("max", "amax", "nanmax"):
    MODELS["numpy." + _n] = np_max


def _arg(mx):
    def g(I, x, axis=None, **k):
        if isinstance(x, LenArr):
            if not I.truth(vec.nonempty(x)):
                raise exc("ValueError", "empty sequence")
            return vec.largmin(x, mx)
        x = nd(x)
        if axis is not None and x.ndim > 1:
            raise Unsupported("argmin with axis")
        v = list(x.flat)
        if not v:
            raise exc("ValueError", "empty sequence")
        best = 0
        for i in range(1, len(v)):
            if I.truth(cmp_scalar(">" if mx else "<", v[i], v[best])):
                best = i
        return best
    return g


np_argmin, np_argmax = _arg(False), _arg(True)
MODELS["numpy.argmin"], MODELS["numpy.argmax"] = np_argmin, np_argmax


@model("numpy.argsort")
def np_argsort(I, x, **k):
    if isinstance(x, LenArr):
        # some permutation of the indices (over-approximation: only its range is known)
        c = ctx()
        nm = "argsort%d" % c.inputs.setdefault("__argsort__", 0)
        c.inputs["__argsort__"] += 1
        o = vec.arr_input(nm, x.n, lo=0, is_int=True)
        c.assume_forall(x.n, lambda j: P(o.at(j)) < P(x.n))
        return o
    v = list(nd(x).flat)
    idx = list(range(len(v)))
    # insertion sort with symbolic comparisons
    out = []
    for i in idx:
        j = len(out)
        while j > 0 and I.truth(cmp_scalar("<", v[i], v[out[j - 1]])):
            j -= 1
        out.insert(j, i)
    return nd(out)


@model("numpy.sort")
def np_sort(I, x, **k):
    o = np_argsort(I, x)
    x = nd(x)
    return nd([x[int(i)] for i in o])


def np_any(I, x, axis=None, **k):
    if isinstance(x, LenArr):
        return vec.lany(x)
    if is_scalar(x):
        return x if isinstance(x, (SymBool, bool)) else (x != 0)
    if isinstance(x, (Vec,)):
        return b_not(x.eq(Vec(x.dim)))
    if isinstance(x, (list, tuple)):
        x = make_array(x)
    if axis is not None:
        return _reduce(x, axis, lambda v: b_or(*[_tb(q) for q in v]))
    return b_or(*[_tb(q) for q in x.flat])


def _tb(q):
    if isinstance(q, (SymBool, bool, np.bool_)):
        return q if isinstance(q, SymBool) else bool(q)
    return q != 0


def np_all(I, x, axis=None, **k):
    if isinstance(x, LenArr):
        return vec.lall(x)
    if is_scalar(x):
        return x if isinstance(x, (SymBool, bool)) else (x != 0)
    if isinstance(x, (list, tuple)):
        x = make_array(x)
    if isinstance(x, Vec):
        raise Unsupported("all() of an abstract vector")
    if axis is not None:
        return _reduce(x, axis, lambda v: b_and(*[_tb(q) for q in v]))
    return b_and(*[_tb(q) for q in x.flat])


MODELS["numpy.any"] = np_any
MODELS["numpy.all"] = np_all


@model("numpy.count_nonzero")
def np_count_nonzero(I, x, **k):
    if isinstance(x, LenArr):
        return vec.lsum(x.map(lambda v: v if isinstance(v, (SymBool, bool)) else P(v) != 0))
    return np_sum(I, npmap(lambda v: sym.SymBool.as_poly(_tb(v)) if isinstance(_tb(v), SymBool) else int(_tb(v)), nd(x)))


def np_cumsum(I, x, **k):
    if isinstance(x, LenArr):
        raise Unsupported("cumsum of symbolic length")
    out, s = [], 0
    for v in nd(x).flat:
        s = _sc("+", s, v)
        out.append(s)
    return nd(out)


MODELS["numpy.cumsum"] = np_cumsum


@model("numpy.diff")
def np_diff(I, x, axis=-1, **k):
    x = nd(x)
    n = x.shape[axis]
    a = np.take(x, range(1, n), axis)
    b = np.take(x, range(0, n - 1), axis)
    return binop(I, "-", a, b)


# ---------------------------------------------------------------- linear algebra
def dot(I, a, b):
    if isinstance(a, (list, tuple)):
        a = make_array(a)
    if isinstance(b, (list, tuple)):
        b = make_array(b)
    if is_scalar(a) or is_scalar(b):
        return binop(I, "*", a, b)
    if isinstance(a, Vec) and isinstance(b, Vec):
        return a.dot(b)
    if isinstance(a, OrthoBasisT) and isinstance(b, Vec):
        if a.b.sgn < 0:
            raise Unsupported("coordinates in a negated basis")
        return BCoord(a.b, b)
    if isinstance(a, SkewInverse) and isinstance(b, Vec):
        x0 = sym.sdiv(a.b.b0.dot(b), a.b.b0.dot(a.b.first))
        return SkewCoord(a.b, x0, b - a.b.first * x0)
    if isinstance(a, SkewBasis) and isinstance(b, SkewCoord) and a is b.b:
        return a.first * b.x0 + b.rest
    if isinstance(a, OrthoBasis) and isinstance(b, BCoord):
        if b.b is a or vec.Vec.eq(a.b0, b.b.b0) is True:
            return b.v.copy()
        raise Unsupported("product of different abstract bases")
    if isinstance(a, MatT) and isinstance(b, (Vec, Mat)):
        return a @ b
    if isinstance(a, Vec) and isinstance(b, Mat):
        return MatT(b) @ a
    if isinstance(a, Mat):
        if isinstance(b, np.ndarray):
            return a @ b
        if isinstance(b, MatT):
            return OuterMat(a, b.m)
        raise Unsupported("abstract matrix product")
    if isinstance(a, np.ndarray) and isinstance(b, MatT):
        if a.ndim == 1:
            return b.m @ a
        return MatT(Mat(b.m.dim, [b.m @ a[i] for i in range(a.shape[0])]))
    if isinstance(a, OuterMat) and isinstance(b, Vec):
        return a.a @ (MatT(a.b) @ b)
    if isinstance(a, SquareMat):
        return a.apply(b)
    if isinstance(a, LenArr) and isinstance(b, LenArr):
        if a.ndim == 1:
            with vec.Generic(a.n) as kk:
                va, vb = a.at(kk), b.at(kk)
            if is_scalar(va) and is_scalar(vb):
                return vec.lsum(a * b)
            if isinstance(va, Vec) and is_scalar(vb):
                return vec.lsum(a * b)
            if isinstance(va, np.ndarray) and is_scalar(vb):
                return vec_lsum(I, a * b)
        raise Unsupported("symbolic length product")
    if isinstance(a, (LenArr,)) or isinstance(b, LenArr):
        raise Unsupported("symbolic length product")
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        try:
            if a.ndim == 1 and b.ndim == 1:
                if len(a) != len(b):
                    raise exc("ValueError", "shapes not aligned")
                return _fold([_sc("*", x, y) for x, y in zip(a, b)])
            if a.ndim == 2 and b.ndim == 1:
                if a.shape[1] != b.shape[0]:
                    raise exc("ValueError", "shapes not aligned")
                return nd([_fold([_sc("*", x, y) for x, y in zip(r, b)]) for r in a])
            if a.ndim == 1 and b.ndim == 2:
                return dot(I, b.T, a)
            if a.ndim == 2 and b.ndim == 2:
                if a.shape[1] != b.shape[0]:
                    raise exc("ValueError", "shapes not aligned")
                return np.stack([dot(I, a, b[:, j]) for j in range(b.shape[1])], axis=1)
        except ValueError as e:
            raise exc("ValueError", str(e))
    raise Unsupported(f"product of {type(a).__name__} and {type(b).__name__}")


class OuterMat:
    """A @ B.T with abstract columns."""

    def __init__(self, a, b):
        self.a, self.b = a, b


class SquareMat:
    """abstract D x D matrix given by its action"""
    __array_ufunc__ = None

    def __init__(self, dim, apply, T=None, name="M"):
        self.dim, self.apply, self._T, self.name = dim, apply, T, name

    @property
    def T(self):
        return self._T

    @property
    def shape(self):
        return (self.dim.p, self.dim.p)

    ndim = 2


ABS = ABS + (OuterMat, SquareMat)
MODELS["numpy.dot"] = dot
MODELS["numpy.matmul"] = dot
MODELS["numpy.inner"] = dot
MODELS["numpy.vdot"] = dot


@model("numpy.outer")
def np_outer(I, a, b):
    if isinstance(a, Vec):
        if isinstance(b, np.ndarray):
            return Mat(a.dim, [a * x for x in b])
        raise Unsupported("outer product")
    a, b = nd(a), nd(b)
    return npmap(lambda x, y: _sc("*", x, y), a.reshape(-1, 1), b.reshape(1, -1))


@model("numpy.cross")
def np_cross(I, a, b, **k):
    if isinstance(a, Vec) or isinstance(b, Vec):
        raise Unsupported("cross product of abstract vectors")
    a, b = nd(a), nd(b)
    if a.shape == (3,) and b.shape == (3,):
        return nd([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    if a.shape == (2,) and b.shape == (2,):
        return a[0] * b[1] - a[1] * b[0]
    raise Unsupported("cross product")


@model("numpy.linalg.norm")
def np_norm(I, x, ord=None, axis=None, **k):
    if ord not in (None, 2):
        if isinstance(x, np.ndarray) and x.ndim == 1:
            if isinstance(ord, float) and math.isinf(ord):
                return np_max(I, npmap(sabs, x))
            if ord == 1:
                return np_sum(I, npmap(sabs, x))
        raise Unsupported("norm order")
    if isinstance(x, Vec):
        return x.norm()
    if isinstance(x, Mat):
        if axis == 0:
            return nd([c.norm() for c in x.cols])
        raise Unsupported("matrix norm")
    if isinstance(x, MatT):
        if axis in (1, -1):
            return nd([c.norm() for c in x.m.cols])
        raise Unsupported("matrix norm")
    if isinstance(x, LenArr):
        if axis == 0:
            return x.map(lambda v: v.norm() if isinstance(v, Vec) else np_norm(I, v))
        raise Unsupported("norm over symbolic length")
    if is_scalar(x):
        return sabs(x)
    x = nd(x)

    def f(v):
        if any(isinstance(q, Poison) for q in v):
            return next(q for q in v if isinstance(q, Poison))
        if len(v) == 1:
            return sabs(v[0])
        return ssqrt(_fold([_sc("*", q, q) for q in v]), known=True)
    if axis is None:
        return f(list(x.flat))
    return _reduce(x, axis, f)


@model("numpy.linalg.det")
def np_det(I, a):
    a = nd(a)
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    if n == 3:
        out = 0
        for j in range(3):
            m = np.delete(np.delete(a, 0, 0), j, 1)
            out = out + (-1) ** j * a[0, j] * np_det(I, m)
        return out
    raise Unsupported("determinant")


@model("numpy.linalg.inv", "numpy.linalg.pinv")
def np_inv(I, a):
    if isinstance(a, SkewBasis):
        if I.truth(cmp_scalar("==", a.b0.dot(a.first), 0)):
            raise Unsupported("pseudo-inverse of a singular matrix")
        return SkewInverse(a)
    if isinstance(a, SquareMat):
        raise Unsupported("inverse of an abstract matrix")
    a = nd(a)
    n = a.shape[0]
    d = np_det(I, a)
    if not I.truth(d != 0):
        raise exc("LinAlgError", "singular matrix")
    if n == 1:
        return nd([[sym.sdiv(1, d)]])
    if n == 2:
        return nd([[sym.sdiv(a[1, 1], d), sym.sdiv(-1 * a[0, 1], d)], [sym.sdiv(-1 * a[1, 0], d), sym.sdiv(a[0, 0], d)]])
    if n == 3:
        r = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                m = np.delete(np.delete(a, j, 0), i, 1)
                r[i, j] = sym.sdiv((-1) ** (i + j) * np_det(I, m), d)
        return r
    raise Unsupported("matrix inverse")


def _close(a, b, rtol, atol):
    if isinstance(a, Poison) or isinstance(b, Poison):
        return False
    return sabs(a - b) <= atol + rtol * sabs(b)


@model("numpy.isclose")
def np_isclose(I, a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), **k):
    return binary(lambda x, y: _close(x, y, rtol, atol))(I, a, b)


@model("math.isclose")
def math_isclose(I, a, b, rel_tol=Fraction(1, 10**9), abs_tol=0):
    a, b = _item(a), _item(b)
    return sabs(a - b) <= smax(rel_tol * smax(sabs(a), sabs(b)), abs_tol)


@model("numpy.allclose", "numpy.array_equal")
def np_allclose(I, a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), **k):
    if isinstance(a, Vec) or isinstance(b, Vec):
        if is_num(a):
            if a != 0:
                raise Unsupported("allclose")
            a, b = b, a
        d = a if is_num(b) and b == 0 else (a - b)
        return abstract_close(d, atol, rtol, a, b)
    if isinstance(a, (Mat,)) and isinstance(b, Mat):
        return b_and(*[np_allclose(I, x, y) for x, y in zip(a.cols, b.cols)])
    r = np_isclose(I, a, b, rtol, atol)
    return np_all(I, r)


def abstract_close(d, atol, rtol, a, b):
    """np.allclose on abstract vectors: an uninterpreted test, true when the difference vanishes and
    only if the difference is small (1e-3 in norm relative to max(1, |b|))."""
    c = ctx()
    t = d.renorm()
    if not t:
        return True
    n2 = Vec(d.dim, t).dot(Vec(d.dim, t))
    if is_num(n2):
        if n2 == 0:
            return True
        nb = 0 if is_num(b) else b.dot(b)
        if is_num(nb) and n2 > Fraction(1, 10**5) * max(1, nb):
            return False
        if is_num(nb):
            raise Unsupported("allclose of nearly equal constants")
    p = P(n2)
    nb = 0 if is_num(b) else b.dot(b)
    key = ("close", p.key(), P(nb).key())
    at = vec._bool_atom(key, "close", p.deps())
    if at.axioms is None:
        z = sym.toz(p)
        zb = sym.toz(P(nb))
        c.notes.add("np.allclose on vectors of any dimension: true for equal vectors, false if the distance exceeds "
                    "1e-3*max(1,|b|); unconstrained in between")
        at.axioms = lambda: [z3.Implies(z == 0, at.z),
                             z3.Implies(at.z, z <= z3.RealVal("1/1000000") * z3.If(zb > 1, zb, z3.RealVal(1)))]
    return SymBool(at.z)


# ---------------------------------------------------------------- builtins
@model("builtins.len")
def b_len(I, x):
    from .interp import SymObj, RepoFunc, RepoClass
    if isinstance(x, LenArr):
        return x.length()
    if isinstance(x, SymObj):
        m = x.m.get("__len__")
        if m:
            return m(I, x)
        f = x.cls.lookup("__len__") if x.cls else None
        if isinstance(f, RepoFunc):
            return I.call_func(f, [x], {})
        raise exc("TypeError", "object has no len()")
    if isinstance(x, MatT):
        return len(x.m.cols)
    if isinstance(x, (Vec, Mat, Mat3)):
        return x.dim.p
    if isinstance(x, RepoClass) and x.is_enum:
        return len(x.enum_members)
    if is_scalar(x) or x is None:
        raise exc("TypeError", "object has no len()")
    return len(x)


@model("builtins.range")
def b_range(I, *a):
    if all(_int_index(x) is not None for x in a):
        return range(*[_int_index(x) for x in a])
    if len(a) == 1:
        return LenArr(P(smax(a[0], 0)) if not ctx().prove_quick(P(a[0]) >= 0) else P(a[0]), lambda j: j, None, "range")
    if len(a) == 2 or (len(a) == 3 and _int_index(a[2]) == 1):
        n = P(a[1]) - a[0]
        if not ctx().prove_quick(P(n) >= 0):
            n = smax(n, 0)
        s = a[0]
        return LenArr(P(n), lambda j: j + s, None, "range")
    raise Unsupported("symbolic range with step")


@model("builtins.enumerate")
def b_enumerate(I, x, start=0):
    s = I.iterate(x)
    if isinstance(s, LenArr):
        f = s._fn
        return LenArr(s.n, lambda j: (j + start, f(j)), s.guard, "list")
    return [(i + start, v) for i, v in enumerate(s)]


@model("builtins.zip")
def b_zip(I, *xs):
    ss = [I.iterate(x) for x in xs]
    if any(isinstance(s, LenArr) for s in ss):
        if all(isinstance(s, LenArr) for s in ss) and all(vec.same_len(ss[0].n, s.n) for s in ss):
            fs = [s._fn for s in ss]
            return LenArr(ss[0].n, lambda j: tuple(f(j) for f in fs), None, "list")
        raise Unsupported("zip of sequences of different symbolic length")
    return [tuple(t) for t in zip(*[list(s) for s in ss])]


@model("builtins.map")
def b_map(I, f, *xs):
    ss = [I.iterate(x) for x in xs]
    if len(ss) == 1 and isinstance(ss[0], LenArr):
        g = ss[0]._fn
        return LenArr(ss[0].n, lambda j: I.call(f, [g(j)], {}), ss[0].guard, "list")
    if any(isinstance(s, LenArr) for s in ss):
        raise Unsupported("map over symbolic length")
    return [I.call(f, list(t), {}) for t in zip(*ss)]


@model("builtins.filter")
def b_filter(I, f, xs):
    return [x for x in I.iterate(xs) if I.truth(I.call(f, [x], {}) if f is not None else x)]


@model("builtins.reversed")
def b_reversed(I, x):
    s = I.iterate(x)
    if isinstance(s, LenArr):
        f, n = s._fn, s.n
        return LenArr(n, lambda j: f(P(n - 1 - j)), None, "list")
    return list(reversed(list(s)))


@model("builtins.sorted")
def b_sorted(I, x, key=None, reverse=False):
    v = list(I.iterate(x))
    ks = [I.call(key, [q], {}) if key is not None else q for q in v]
    out = []
    for i in range(len(v)):
        j = len(out)
        while j > 0 and I.truth(compare(I, ">" if reverse else "<", ks[i], ks[out[j - 1]])):
            j -= 1
        out.insert(j, i)
    return [v[i] for i in out]


@model("builtins.sum")
def b_sum(I, x, start=0):
    s = I.iterate(x)
    if isinstance(s, LenArr):
        r = vec.lsum(s)
        return r if is_num(start) and start == 0 else binop(I, "+", start, r)
    if isinstance(x, Had):
        return x.sum()
    out = start
    for v in s:
        out = I.binop(_ast.Add(), out, v)
    return out


def _bmm(f, mx):
    def g(I, *a, key=None, default=MISSING):
        if len(a) == 1:
            s = I.iterate(a[0])
            if isinstance(s, LenArr):
                if key is not None:
                    raise Unsupported("min with key")
                if not I.truth(vec.nonempty(s)):
                    if default is not MISSING:
                        return default
                    raise exc("ValueError", "empty sequence")
                return vec.lmin(s, mx)
            v = list(s)
        else:
            v = list(a)
        if not v:
            if default is not MISSING:
                return default
            raise exc("ValueError", "empty sequence")
        if key is not None:
            ks = [I.call(key, [q], {}) for q in v]
            best = 0
            for i in range(1, len(v)):
                if I.truth(compare(I, ">" if mx else "<", ks[i], ks[best])):
                    best = i
            return v[best]
        out = v[0]
        for q in v[1:]:
            if not is_scalar(q) or not is_scalar(out):
                if isinstance(out, np.ndarray) and out.size == 1:
                    out = out.item()
                if isinstance(q, np.ndarray) and q.size == 1:
                    q = q.item()
                if not is_scalar(q) or not is_scalar(out):
                    if isinstance(q, (Vec, np.ndarray, LenArr)) or isinstance(out, (Vec, np.ndarray, LenArr)):
                        raise exc("ValueError", "ambiguous truth value")
                    raise Unsupported("min/max of non-scalars")
            out = f(out, q)
        return out
    return g


MODELS["builtins.min"] = _bmm(smin, False)
MODELS["builtins.max"] = _bmm(smax, True)
MODELS["builtins.abs"] = elementwise(sabs)


@model("builtins.any")
def b_any(I, x):
    s = I.iterate(x)
    if isinstance(s, LenArr):
        return vec.lany(s)
    out = False
    for v in s:
        if not isinstance(v, (SymBool, bool)):
            v = I.truth(v)
        out = b_or(out, v)
    return out


@model("builtins.all")
def b_all(I, x):
    s = I.iterate(x)
    if isinstance(s, LenArr):
        return vec.lall(s)
    out = True
    for v in s:
        if not isinstance(v, (SymBool, bool)):
            v = I.truth(v)
        out = b_and(out, v)
    return out


@model("builtins.isinstance")
def b_isinstance(I, o, t):
    from .interp import SymObj, RepoClass, ExtRef, EnumMember, ExtModule
    ts = t if isinstance(t, tuple) else (t,)
    res = False
    for k in ts:
        if isinstance(k, RepoClass):
            if isinstance(o, SymObj) and o.cls is not None and o.cls.issub(k):
                return True
            if isinstance(o, EnumMember) and o.cls is k:
                return True
        elif isinstance(k, ExtRef):
            if k.name.endswith("ndarray"):
                if isinstance(o, (np.ndarray, Vec, Mat, MatT, LenArr, Mat3)):
                    return True
            elif isinstance(o, SymObj):
                if o.cls is None:
                    raise Unsupported("isinstance of abstract object")
                if o.cls.issub(k):
                    return True
            elif k.name in ("numpy.floating", "numbers.Number", "numbers.Real", "numpy.float64"):
                if isinstance(o, (Poly, Fraction)):
                    return True
        elif isinstance(k, type):
            if k is float:
                if isinstance(o, (Fraction, float)) or (isinstance(o, Poly) and not o.is_int()):
                    return True
            elif k is int:
                if isinstance(o, int) or (isinstance(o, Poly) and o.is_int()):
                    return True
            elif k is bool:
                if isinstance(o, (bool, SymBool)):
                    return True
            elif k is list:
                if isinstance(o, list) or (isinstance(o, LenArr) and o.kind == "list"):
                    return True
            elif k is np.ndarray:
                if isinstance(o, (np.ndarray, Vec, Mat, MatT, LenArr, Mat3)):
                    return True
            elif isinstance(o, k) and not isinstance(o, (Poly, Vec, LenArr, SymObj)):
                return True
    return res


@model("builtins.issubclass")
def b_issubclass(I, a, b):
    return a.issub(b)


@model("builtins.hasattr")
def b_hasattr(I, o, n):
    try:
        I.getattr(o, n)
        return True
    except PyRaise:
        return False


@model("builtins.getattr")
def b_getattr(I, o, n, *d):
    try:
        return I.getattr(o, n)
    except PyRaise:
        if d:
            return d[0]
        raise


@model("builtins.setattr")
def b_setattr(I, o, n, v):
    I.setattr(o, n, v)


@model("builtins.callable")
def b_callable(I, o):
    from .interp import RepoFunc, BoundMethod, ModelFunc
    return isinstance(o, (RepoFunc, BoundMethod, ModelFunc))


@model("builtins.id")
def b_id(I, o):
    return id(o)


@model("builtins.iter")
def b_iter(I, x):
    seq = I.iterate(x)
    if isinstance(seq, LenArr):
        return seq              # only good for a loop over all of it
    return iter(list(seq))


@model("builtins.next")
def b_next(I, x, *d):
    try:
        return next(x)
    except StopIteration:
        if d:
            return d[0]
        raise exc("StopIteration")


@model("builtins.round")
def b_round(I, x, n=0):
    if is_num(x):
        return round(Fraction(x), n) if n else round(x)
    raise Unsupported("rounding")


@model("builtins.divmod")
def b_divmod(I, a, b):
    return (_sc("//", a, b), _sc("%", a, b))


@model("builtins.slice")
def b_slice(I, *a):
    return slice(*a)


@model("builtins.str", "builtins.repr", "builtins.format")
def b_str(I, *a):
    return "<str>"


@model("builtins.print")
def b_print(I, *a, **k):
    return None


def call_type(I, t, args, kwargs):
    if t is list:
        if not args:
            return []
        s = I.iterate(args[0])
        if isinstance(s, LenArr):
            return LenArr(s.n, s._fn, s.guard, "list")
        return list(s)
    if t is tuple:
        return tuple(I.iterate(args[0])) if args else ()
    if t is dict:
        d = {}
        if args:
            d.update(args[0] if isinstance(args[0], dict) else [tuple(x) for x in I.iterate(args[0])])
        d.update(kwargs)
        return d
    if t in (set, frozenset):
        return t(I.hashable(x) for x in I.iterate(args[0])) if args else t()
    if t is float:
        x = args[0] if args else 0
        x = _item(x)
        if isinstance(x, SymBool):
            return x.as_poly()
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, str):
            return float(x)
        if is_scalar(x):
            return x
        raise exc("TypeError", "float()")
    if t is int:
        x = _item(args[0]) if args else 0
        if isinstance(x, SymBool):
            return x.as_poly()
        if is_num(x):
            return int(x)
        if isinstance(x, Poly):
            if x.is_int():
                return x
            raise Unsupported("int() of a symbolic real")
        raise exc("TypeError", "int()")
    if t is bool:
        x = args[0] if args else False
        if isinstance(x, (SymBool, bool)):
            return x
        return I.truth(x)
    if t is str:
        return "<str>"
    if t is object:
        return object()
    if t is type:
        from .interp import SymObj
        if isinstance(args[0], SymObj):
            return args[0].cls
        return type(args[0])
    if t is np.ndarray:
        raise Unsupported("ndarray()")
    raise Unsupported(f"call of {t.__name__}")


def list_append(I, a, x):
    if isinstance(a, LenArr) and a.kind == "list":
        r = _cat_len(LenArr(a.n, a._fn, a.guard, "list"), [x]) if is_scalar(x) else None
        if r is None:
            n, f = a.n, a._fn
            raise Unsupported("append to a list of symbolic length")
        a.set_from(r)
        return None
    raise exc("AttributeError", "append")


@model("copy.deepcopy")
def m_deepcopy(I, x):
    return _copy.deepcopy(x)


@model("copy.copy")
def m_copy(I, x):
    from .interp import SymObj
    if isinstance(x, SymObj):
        o = SymObj(x.cls, dict(x.f), x.name, x.m)
        return o
    if isinstance(x, list):
        return list(x)
    if isinstance(x, dict):
        return dict(x)
    return _copy.copy(x)


MODELS["itertools.product"] = lambda I, *a, **k: list(itertools.product(*[list(I.iterate(x)) for x in a], **k))
MODELS["itertools.combinations"] = lambda I, a, r: list(itertools.combinations(list(I.iterate(a)), r))
MODELS["itertools.chain"] = lambda I, *a: [y for x in a for y in I.iterate(x)]
MODELS["dataclasses.field"] = lambda I, **k: Unsupported
MODELS["math.floor"] = lambda I, x: math.floor(x) if is_num(x) else (_ for _ in ()).throw(Unsupported("floor"))
MODELS["math.ceil"] = lambda I, x: math.ceil(x) if is_num(x) else (_ for _ in ()).throw(Unsupported("ceil"))
MODELS["math.copysign"] = lambda I, a, b: ite(b >= 0, sabs(a), -sabs(a)) if isinstance(b, Poly) else (sabs(a) if b >= 0 else -sabs(a))
MODELS["numpy.copysign"] = binary(lambda a, b: ite(b >= 0, sabs(a), -sabs(a)) if isinstance(b, Poly) else (sabs(a) if b >= 0 else -sabs(a)))
MODELS["math.prod"] = lambda I, x: np_prod(I, list(I.iterate(x)))
MODELS["math.dist"] = lambda I, a, b: np_norm(I, binop(I, "-", nd(a) if isinstance(a, (list, tuple)) else a, nd(b) if isinstance(b, (list, tuple)) else b))


@model("numpy.delete")
def np_delete(I, arr, obj, axis=None):
    k = obj
    if isinstance(arr, (Mat, MatT)) and axis == (0 if isinstance(arr, MatT) else 1) and _int_index(k) is not None:
        m = arr.m if isinstance(arr, MatT) else arr
        i = _int_index(k)
        if not -len(m.cols) <= i < len(m.cols):
            raise exc("IndexError", "index out of bounds")
        i %= len(m.cols)
        r = Mat(m.dim, [c.copy() for j, c in enumerate(m.cols) if j != i])
        return MatT(r) if isinstance(arr, MatT) else r
    a = arr
    if isinstance(a, (LenArr, Vec, Mat)):
        raise Unsupported("delete")
    return np.delete(nd(a), conv_key(I, k), axis)


@model("numpy.unique")
def np_unique(I, a, **k):
    v = list(nd(a).flat)
    if all(is_num(x) for x in v):
        return nd(sorted(set(v)))
    raise Unsupported("unique")


@model("numpy.roll")
def np_roll(I, a, n, axis=None):
    return np.roll(nd(a), int(n), axis)


@model("numpy.flip")
def np_flip(I, a, axis=None):
    return np.flip(nd(a), axis)


@model("numpy.isscalar")
def np_isscalar(I, a):
    return is_scalar(a)


@model("numpy.interp")
def np_interp(I, *a):
    raise Unsupported("interp")


@model("numpy.einsum")
def np_einsum(I, *a, **k):
    raise Unsupported("einsum")


@model("numpy.float64", "numpy.float32")
def np_float(I, x=0):
    return call_type(I, float, [x], {})


@model("numpy.bool_")
def np_boolf(I, x=False):
    return call_type(I, bool, [x], {})


@model("numpy.shape")
def np_shape(I, x):
    return _shape_of(x)


@model("numpy.size")
def np_size(I, x):
    return x.size


@model("numpy.ndim")
def np_ndim(I, x):
    return 0 if is_scalar(x) else nd(x).ndim if isinstance(x, (list, tuple)) else x.ndim


@model("numpy.meshgrid")
def np_meshgrid(I, *a, **k):
    raise Unsupported("meshgrid")
