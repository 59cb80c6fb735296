"""Abstract vectors (any dimension), column matrices and arrays of symbolic length."""
from __future__ import annotations
from fractions import Fraction
import numpy as np
import z3
from . import sym
from .core import Quant, IndexFork
from .sym import (Poly, Poison, SymBool, Unsupported, PoisonUse, P, ctx, toz, bz, mkb, b_and, b_or, b_not,
                  b_implies, normal, is_num, ssqrt, ite, smax, smin, fresh, PyRaise)


# ------------------------------------------------------------------ abstract vectors
class VAtom:
    _n = 0

    def __init__(self, name, norm=None, deps=frozenset(), kind="v", info=None):
        c = ctx()
        n = c._names.get("V" + name, 0)
        c._names["V" + name] = n + 1
        self.name = name if n == 0 else f"{name}!{n}"
        self.order = len(c.gram_used)
        c.gram_used[id(self)] = self
        self.id = len(c.gram_used)
        self.kind = kind
        self.info = info
        self.deps = deps
        self.known = {}
        self._norm = norm

    def norm(self):
        if self._norm is None:
            c = ctx()
            a = c.new_atom(f"|{self.name}|", "vnorm", (), False, self.deps)
            a.nonneg = True
            a.axioms = lambda: [a.z >= 0]
            self._norm = Poly.atom(a)
        return self._norm

    def n2z(self):
        return toz(P(self.norm() * self.norm()))

    def __repr__(self):
        return self.name


def gram(a, b):
    if a is b:
        n = a.norm()
        return n * n
    if a.id > b.id:
        a, b = b, a
    k = a.known.get(b.id)
    if k is not None:
        return k
    if a.kind == "vsum" or b.kind == "vsum":
        s, o = (a, b) if a.kind == "vsum" else (b, a)
        if o.kind != "vsum" or True:
            r = s.info.dot_with(o)
            if r is not None:
                a.known[b.id] = r
                return r
    c = ctx()
    at = c.new_atom(f"<{a.name},{b.name}>", "gram", (), False, a.deps | b.deps)
    at.info = (a, b)
    p = Poly.atom(at)
    a.known[b.id] = p
    return p


def set_gram(a, b, value):
    if a.id > b.id:
        a, b = b, a
    a.known[b.id] = value


class Dim:
    """Symbolic dimension (>= lo)."""

    def __init__(self, name="D", lo=2):
        c = ctx()
        at = c.new_atom(name, "dim", (), True)
        at.nonneg = at.pos = True
        at.axioms = lambda: [at.z >= lo]
        self.p = Poly.atom(at)
        self.lo = lo
        self.basis = {}
        c.inputs.setdefault("__dims__", []).append(self)

    def e(self, i):
        if i not in self.basis:
            if i >= self.lo:
                raise Unsupported(f"coordinate {i} of a vector of dimension >= {self.lo}")
            v = VAtom(f"e{i}", norm=1)
            for j, w in self.basis.items():
                set_gram(v, w, 0)
            self.basis[i] = v
        return self.basis[i]


class Vec:
    """Linear combination of vector atoms; mutable like a numpy array."""
    __array_priority__ = 200
    __array_ufunc__ = None

    def __init__(self, dim, t=None):
        self.dim = dim
        self.t = t or {}

    def copy(self):
        return Vec(self.dim, dict(self.t))

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        v = self.copy()
        memo[id(self)] = v
        return v

    __copy__ = copy

    def __repr__(self):
        return "Vec(" + " + ".join(f"({c})*{a}" for a, c in self.t.items()) + ")"

    @property
    def shape(self):
        return (self.dim.p,)

    @property
    def ndim(self):
        return 1

    @property
    def size(self):
        return self.dim.p

    @property
    def T(self):
        return self

    def _lin(self, o, s):
        if isinstance(o, Vec):
            if o.dim is not self.dim:
                raise Unsupported("vectors of different dimension")
            t = dict(self.t)
            for a, c in o.t.items():
                n = t.get(a, 0) + (c if s > 0 else -P(c) if isinstance(c, Poly) else -c)
                if is_num(n) and n == 0:
                    t.pop(a, None)
                else:
                    t[a] = n
            return Vec(self.dim, t)
        if is_num(o) and o == 0:
            return self.copy()
        if isinstance(o, Poison):
            return o
        return NotImplemented

    def __add__(self, o):
        return self._lin(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(o, -1)

    def __rsub__(self, o):
        r = self._lin(o, -1)
        return r if r is NotImplemented or isinstance(r, Poison) else r * (-1)

    def __neg__(self):
        return self * (-1)

    def __pos__(self):
        return self.copy()

    def __mul__(self, o):
        if isinstance(o, Poison):
            return o
        if isinstance(o, Vec):
            return Had([(self, o)])
        if isinstance(o, SymBool):
            o = o.as_poly()
        if isinstance(o, (int, float, Fraction, Poly)):
            if is_num(o):
                o = sym._num(o)
            if is_num(o) and o == 0:
                return Vec(self.dim)
            t = {}
            for a, c in self.t.items():
                n = c * o
                if is_num(n) and n == 0:
                    continue
                t[a] = n
            return Vec(self.dim, t)
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Poison):
            return o
        if isinstance(o, (int, float, Fraction, Poly)):
            i = sym.sdiv(1, o)
            if isinstance(i, Poison):
                return i
            return self * i
        return NotImplemented

    def __pow__(self, o):
        if o == 2:
            return Had([(self, self)])
        raise Unsupported("power of an abstract vector")

    def dot(self, o):
        out = 0
        for a, c in self.t.items():
            for b, d in o.t.items():
                out = out + c * d * gram(a, b)
        if isinstance(out, Poly) and self is not o and (len(self.t) > 1 or len(o.t) > 1) and not out.is_const():
            ctx().dots[sym.renorm(out).key()] = (dict(self.t), dict(o.t), self.dim)
        return out

    def renorm(self):
        t = {}
        for a, c in self.t.items():
            if isinstance(c, Poly):
                c = normal(sym.renorm(c))
            if is_num(c) and c == 0:
                continue
            t[a] = c
        return t

    def norm(self):
        t = self.renorm()
        if not t:
            return 0
        if len(t) == 1:
            (a, c), = t.items()
            return sym.sabs(c) * a.norm()
        r = ssqrt(Vec(self.dim, t).dot(self), known=True, vnorm=True)
        at = r.single_atom() if isinstance(r, Poly) else None
        if at is not None:
            ctx().norm_vecs.setdefault(str(at.z), Vec(self.dim, dict(t)))
        return r

    def is_zero_const(self):
        return not self.renorm()

    def get(self, i):
        if isinstance(i, int):
            if i < 0:
                raise Unsupported("negative coordinate of an abstract vector")
            return self.dot(Vec(self.dim, {self.dim.e(i): 1}))
        raise Unsupported("symbolic coordinate")

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start in (None, 0) and i.step in (None, 1) and isinstance(i.stop, int) and 0 < i.stop <= self.dim.lo:
                return np.array([self.get(j) for j in range(i.stop)] + [None], dtype=object)[:-1]
            if i == slice(None):
                return self
            raise Unsupported("slice of an abstract vector")
        return self.get(i)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if i == slice(None):
                if isinstance(v, Vec):
                    self.t = dict(v.t)
                    return
                if is_num(v) and v == 0:
                    self.t = {}
                    return
            if i.start in (None, 0) and isinstance(i.stop, int):
                for j in range(i.stop):
                    self[j] = v[j] if not is_num(v) else v
                return
            raise Unsupported("slice assignment on an abstract vector")
        d = v - self.get(i)
        r = self + Vec(self.dim, {self.dim.e(i): d} if not (is_num(d) and d == 0) else {})
        self.t = r.t

    def eq(self, o):
        """semantic equality as SymBool"""
        d = self - o
        t = d.renorm()
        if not t:
            return True
        if all(is_num(c) for c in t.values()) and False:
            return False
        n2 = Vec(self.dim, t).dot(Vec(self.dim, t))
        if is_num(n2):
            return n2 == 0
        # sufficient (and, for independent atoms, necessary) coefficient-wise equality or zero norm
        return b_or(b_and(*[P(c) == 0 for c in t.values()]), P(n2) == 0)

    def __len__(self):
        raise Unsupported("len() of an abstract vector")

    def __iter__(self):
        raise Unsupported("iteration over an abstract vector")

    def deps(self):
        d = frozenset()
        for a, c in self.t.items():
            d |= a.deps
            if isinstance(c, Poly):
                d |= c.deps()
        return d


class Had:
    """Element-wise product(s) of abstract vectors: only its sum is defined."""
    __array_priority__ = 210
    __array_ufunc__ = None

    def __init__(self, pairs):
        self.pairs = pairs

    def sum(self):
        out = 0
        for a, b in self.pairs:
            out = out + a.dot(b)
        return out

    def __mul__(self, o):
        if isinstance(o, (Poly, int, Fraction, float)):
            return Had([(a * o, b) for a, b in self.pairs])
        return NotImplemented
    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, Had):
            return Had(self.pairs + o.pairs)
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, Had):
            return Had(self.pairs + [(a * (-1), b) for a, b in o.pairs])
        return NotImplemented


class Mat:
    """D x k matrix of abstract column vectors (k concrete)."""
    __array_priority__ = 220
    __array_ufunc__ = None

    def __init__(self, dim, cols):
        self.dim = dim
        self.cols = list(cols)

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        m = Mat(self.dim, [c.copy() for c in self.cols])
        memo[id(self)] = m
        return m

    def copy(self):
        return Mat(self.dim, [c.copy() for c in self.cols])

    @property
    def shape(self):
        return (self.dim.p, len(self.cols))

    @property
    def ndim(self):
        return 2

    @property
    def T(self):
        return MatT(self)

    def __len__(self):
        raise Unsupported("len of an abstract matrix")

    def __repr__(self):
        return f"Mat({self.cols})"

    def map(self, f):
        return Mat(self.dim, [f(c) for c in self.cols])

    def _bin(self, o, op):
        if isinstance(o, Mat):
            if len(o.cols) != len(self.cols):
                raise PyRaise(("ValueError", "shape mismatch"))
            r = [op(a, b) for a, b in zip(self.cols, o.cols)]
            if r and isinstance(r[0], Had):
                return HadMat(self.dim, r)
            return Mat(self.dim, r)
        if isinstance(o, np.ndarray):
            if o.ndim == 1 and len(o) == len(self.cols):
                return Mat(self.dim, [op(a, b) for a, b in zip(self.cols, o)])
            if o.ndim == 1 and len(o) == 1:
                return Mat(self.dim, [op(a, o[0]) for a in self.cols])
            raise Unsupported("broadcast")
        if isinstance(o, TileRow):
            return Mat(self.dim, [op(a, b) for a, b in zip(self.cols, o.row)])
        if isinstance(o, (int, float, Fraction, Poly)):
            return Mat(self.dim, [op(a, o) for a in self.cols])
        return NotImplemented

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __neg__(self): return self.map(lambda c: c * (-1))

    def __pow__(self, o):
        if o == 2:
            return HadMat(self.dim, [Had([(c, c)]) for c in self.cols])
        raise Unsupported("power of an abstract matrix")

    def __matmul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim == 1:
            out = Vec(self.dim)
            for c, k in zip(self.cols, o):
                out = out + c * k
            return out
        if isinstance(o, np.ndarray) and o.ndim == 2:
            cols = []
            for j in range(o.shape[1]):
                cols.append(self @ o[:, j])
            return Mat(self.dim, cols)
        raise Unsupported("matrix product")

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            if k[0] == slice(None) or k[0] is Ellipsis:
                j = k[1]
                if isinstance(j, (int, np.integer)):
                    if j >= len(self.cols) or j < -len(self.cols):
                        raise PyRaise(("IndexError", "column index"))
                    return self.cols[j]
                if isinstance(j, slice):
                    return Mat(self.dim, self.cols[j])
                if isinstance(j, (list, np.ndarray)):
                    j = list(j)
                    if j and isinstance(j[0], (bool, SymBool, np.bool_)):
                        j = [i for i, b in enumerate(j) if bool(b)]
                    return Mat(self.dim, [self.cols[int(i)].copy() for i in j])
            if isinstance(k[0], int):
                r = np.empty(len(self.cols), dtype=object)
                for i, c in enumerate(self.cols):
                    r[i] = c.get(k[0])
                return r if k[1] == slice(None) else r[k[1]]
            if isinstance(k[0], slice) and k[0].start in (None, 0) and isinstance(k[0].stop, int):
                r = np.empty((k[0].stop, len(self.cols)), dtype=object)
                for i, c in enumerate(self.cols):
                    for q in range(k[0].stop):
                        r[q, i] = c.get(q)
                return r[:, k[1]]
        if isinstance(k, int):
            return self[k, :]
        raise Unsupported(f"matrix index {k}")

    def __setitem__(self, k, v):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None):
            j = k[1]
            if isinstance(j, (int, np.integer)):
                if isinstance(v, Vec):
                    self.cols[j].t = dict(v.t)
                    return
                if is_num(v) and v == 0:
                    self.cols[j].t = {}
                    return
                raise Unsupported("column assignment")
            if isinstance(j, slice):
                idx = list(range(len(self.cols)))[j]
            else:
                j = list(j)
                if j and isinstance(j[0], (bool, SymBool, np.bool_)):
                    idx = [i for i, b in enumerate(j) if bool(b)]
                else:
                    idx = [int(i) for i in j]
            if isinstance(v, Mat):
                if len(v.cols) != len(idx):
                    raise PyRaise(("ValueError", "shape mismatch"))
                for c in v.cols:
                    if isinstance(c, sym.Poison):
                        raise sym.PoisonUse(c.why)
                for i, c in zip(idx, [c.copy() for c in v.cols]):
                    self.cols[i].t = c.t
                return
            if isinstance(v, MatT) and False:
                return
            if is_num(v) and v == 0:
                for i in idx:
                    self.cols[i].t = {}
                return
        raise Unsupported("matrix assignment")

    def sum(self, axis=None):
        if axis == 1:
            out = Vec(self.dim)
            for c in self.cols:
                out = out + c
            return out
        raise Unsupported("matrix sum")


class MatT:
    """Transpose of an abstract matrix: k rows of abstract vectors."""
    __array_priority__ = 220
    __array_ufunc__ = None

    def __init__(self, mat):
        self.m = mat

    def __deepcopy__(self, memo):
        import copy
        return MatT(copy.deepcopy(self.m, memo))

    def copy(self):
        return MatT(self.m.copy())

    @property
    def T(self):
        return self.m

    @property
    def shape(self):
        return (len(self.m.cols), self.m.dim.p)

    @property
    def ndim(self):
        return 2

    def __len__(self):
        return len(self.m.cols)

    def __iter__(self):
        return iter(self.m.cols)

    def _dotm(self, o):
        if isinstance(o, Vec):
            r = np.empty(len(self.m.cols), dtype=object)
            for i, c in enumerate(self.m.cols):
                r[i] = c.dot(o)
            return r
        if isinstance(o, Mat):
            r = np.empty((len(self.m.cols), len(o.cols)), dtype=object)
            for i, c in enumerate(self.m.cols):
                for j, d in enumerate(o.cols):
                    r[i, j] = c.dot(d)
            return r
        raise Unsupported("matrix product")

    def __matmul__(self, o):
        return self._dotm(o)

    def _sc(self, o, op):
        if isinstance(o, MatT):
            r = self.m._bin(o.m, op)
            return MatT(r) if isinstance(r, Mat) else MatT(r)
        if isinstance(o, (int, float, Fraction, Poly)):
            return MatT(self.m.map(lambda c: op(c, o)))
        if isinstance(o, np.ndarray) and o.ndim == 2 and o.shape[1] == 1 and o.shape[0] == len(self.m.cols):
            return MatT(Mat(self.m.dim, [op(a, b) for a, b in zip(self.m.cols, o[:, 0])]))
        if isinstance(o, Vec):
            return MatT(self.m.map(lambda c: op(c, o)))
        if isinstance(o, TileRowT) and len(o.t.row) == len(self.m.cols):
            return MatT(Mat(self.m.dim, [op(a, b) for a, b in zip(self.m.cols, o.t.row)]))
        if isinstance(o, TileRow):
            raise Unsupported("broadcast")
        raise Unsupported("transposed matrix arithmetic")

    def __mul__(self, o): return self._sc(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __add__(self, o): return self._sc(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._sc(o, lambda a, b: a - b)
    def __truediv__(self, o): return self._sc(o, lambda a, b: a / b)

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            r = self.m[k[1], k[0]]
            if isinstance(r, Mat):
                return MatT(r)
            return r.T if isinstance(r, np.ndarray) and r.ndim == 2 else r
        if isinstance(k, (int, np.integer)):
            return self.m.cols[k]
        if isinstance(k, slice):
            return MatT(Mat(self.m.dim, self.m.cols[k]))
        if isinstance(k, (list, np.ndarray)):
            return MatT(self.m[slice(None), k])
        raise Unsupported("row index")

    def __setitem__(self, k, v):
        if isinstance(v, MatT):
            v = v.m
        elif isinstance(v, Mat):
            raise PyRaise(("ValueError", "shape mismatch"))
        if isinstance(k, tuple):
            self.m[k[1], k[0]] = v
        else:
            self.m[slice(None), k] = v

    def sum(self, axis=None):
        if axis == 0:
            return self.m.sum(axis=1)
        if axis in (1, -1) and isinstance(self.m, HadMat):
            return self.m.sum(axis=0)
        raise Unsupported("sum of rows")


class HadMat:
    __array_priority__ = 230
    __array_ufunc__ = None

    def __init__(self, dim, hads):
        self.dim = dim
        self.h = hads

    def sum(self, axis=None):
        if axis == 0:
            r = np.empty(len(self.h), dtype=object)
            for i, h in enumerate(self.h):
                r[i] = h.sum()
            return r
        if axis is None:
            out = 0
            for h in self.h:
                out = out + h.sum()
            return out
        raise Unsupported("sum of element-wise products")


class TileRow:
    """np.tile(row, (D, 1)) with abstract D: every row equal."""
    __array_priority__ = 225
    __array_ufunc__ = None

    def __init__(self, dim, row):
        self.dim, self.row = dim, row

    @property
    def shape(self):
        return (self.dim.p, len(self.row))

    def __mul__(self, o):
        if isinstance(o, Mat):
            return o * self
        return TileRow(self.dim, self.row * o)
    __rmul__ = __mul__

    @property
    def T(self):
        return TileRowT(self)


class TileRowT:
    """np.tile(row, (D, 1)).T with abstract D: row j is the j-th entry everywhere."""
    __array_priority__ = 225
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    @property
    def shape(self):
        return (len(self.t.row), self.t.dim.p)

    @property
    def T(self):
        return self.t


# ------------------------------------------------------------------ substitution of generic indices
def subst_poly(p, kid, j, memo=None):
    if is_num(p):
        return p
    if kid not in p.deps():
        return p
    memo = {} if memo is None else memo
    c = ctx()
    out = 0
    for m, co in p.t.items():
        term = co if co.denominator != 1 else int(co)
        for aid, e in m:
            a = c.atoms_by_id[aid]
            v = subst_atom(a, kid, j, memo)
            for _ in range(e):
                term = term * v
        out = out + term
    return out


def subst_bool(z, kid, j, memo):
    c = ctx()
    pairs = []
    for n in c.z_consts(z):
        a = c.by_zname.get(n)
        if a is not None and kid in a.deps:
            v = subst_atom(a, kid, j, memo)
            if isinstance(v, (SymBool, bool)):
                pairs.append((a.z, bz(v)))
            else:
                zv = toz(P(v))
                if a.is_int:
                    pv = P(v).single_atom()
                    zv = pv.z if (pv is not None and pv.is_int) else z3.ToInt(zv)
                pairs.append((a.z, zv))
    return z3.simplify(z3.substitute(z, *pairs)) if pairs else z


def subst_atom(a, kid, j, memo):
    if a.id in memo:
        return memo[a.id]
    if a.id == kid:
        return j
    if kid not in a.deps:
        return Poly.atom(a)
    c = ctx()
    oldl = c.lenient
    c.lenient = True
    try:
        k = a.kind
        S = lambda p: subst_poly(p, kid, j, memo)
        if k == "elem":
            fn, idx = a.info
            r = fn(S(idx))
        elif k == "sqrt":
            r = ssqrt(S(a.info))
        elif k == "inv1":
            r = sym.inv(P(subst_atom(c.atoms_by_id[a.args], kid, j, memo)))
        elif k == "invp":
            q = P(S(a.info))
            r = sym.sdiv(1, q)
        elif k == "abs":
            r = sym.sabs(S(a.info))
        elif k == "ite":
            z, pa, pb = a.info
            r = ite(mkb(subst_bool(z, kid, j, memo)), S(pa), S(pb))
        elif k == "ind":
            b = mkb(subst_bool(a.info, kid, j, memo))
            r = b.as_poly() if isinstance(b, SymBool) else int(b)
        elif k == "max":
            r = smax(S(a.info[0]), S(a.info[1]))
        elif k == "min":
            r = smin(S(a.info[0]), S(a.info[1]))
        elif k == "cos":
            r = sym.scos(S(a.info))
        elif k == "sin":
            r = sym.ssin(S(a.info))
        elif k == "exp":
            r = sym.sexp(S(a.info))
        elif k == "log":
            r = sym.slog(S(a.info))
        elif k == "pow":
            r = sym.spow(S(a.info[0]), S(a.info[1]))
        elif k == "abbr":
            r = S(a.info)
        elif k == "atan2":
            r = sym.satan2(S(a.info[0]), S(a.info[1]))
        elif k == "gram":
            va, vb = a.info
            r = gram(subst_vatom(va, kid, j), subst_vatom(vb, kid, j))
        elif k == "vnorm" and a.info is not None:
            r = subst_vatom(a.info, kid, j).norm()
        else:
            raise Unsupported(f"cannot re-instantiate {k} atom")
    finally:
        c.lenient = oldl
    memo[a.id] = r
    return r


def subst_vatom(v, kid, j):
    if kid not in v.deps:
        return v
    if v.kind == "velem":
        fn, idx = v.info
        r = fn(subst_poly(idx, kid, j))
        (a, c), = r.t.items()
        return a
    raise Unsupported("cannot re-instantiate a vector atom")


# ------------------------------------------------------------------ arrays of symbolic length
def generic_index(n):
    """canonical generic index for range n at the current nesting depth"""
    c = ctx()
    nk = P(n).key()
    d = c.gen_depth.get(nk, 0)
    lst = c.gen_idx.setdefault(nk, [])
    while len(lst) <= d:
        lst.append(c.new_generic_index(n))
    return lst[d]


class Generic:
    """with Generic(n) as k: evaluate something at the generic index k."""

    def __init__(self, n, guard=None, nofork=True):
        self.n, self.guard, self.nofork = n, guard, nofork

    def __enter__(self):
        c = ctx()
        self.k = generic_index(self.n)
        nk = P(self.n).key()
        c.gen_depth[nk] = c.gen_depth.get(nk, 0) + 1
        self.mark = c.push()
        c.assume(b_and(self.k >= 0, self.k < P(self.n)))
        if self.nofork:
            c.explorers.append(None)
        if self.guard is not None:
            g = self.guard(self.k)
            if g is False:
                g = SymBool(z3.BoolVal(False))
            c.assume(g)
        return self.k

    def __exit__(self, *a):
        c = ctx()
        nk = P(self.n).key()
        c.gen_depth[nk] -= 1
        if self.nofork:
            c.explorers.pop()
        c.pop(self.mark)
        return False


def eval_generic(n, guard, fn, use):
    """Evaluate fn at the generic index and return use(k, value); domain failures fork on 'for all'."""
    c = ctx()
    for _ in range(12):
        try:
            with Generic(n, guard) as k:
                v = fn(k)
                return use(k, v)
        except IndexFork as e:
            if c.explorers and c.explorers[-1] is None:
                raise
            _decide_all_defined(n, guard, fn)
    raise Unsupported("definedness of array elements")


def _record(n, guard, fn, j):
    """conditions checked while evaluating fn(j)"""
    c = ctx()
    old = c.recording
    c.recording = []
    c.explorers.append(None)
    mark = c.push()
    try:
        c.assume(b_and(P(j) >= 0, P(j) < P(n)))
        g = guard(j) if guard is not None else True
        if g is not True:
            c.pc.append(bz(g))
        fn(j)
        rec = list(c.recording)
    finally:
        c.pop(mark)
        c.explorers.pop()
        c.recording = old
    return g, rec


def _decide_all_defined(n, guard, fn):
    c = ctx()
    b = SymBool(z3.Bool(f"alldef!{len(c.quants)}!{len(c.pc)}"))
    if c.decide(b):
        def inst(j):
            g, rec = _record(n, guard, fn, j)
            if not rec:
                return []
            pre = b_and(P(j) >= 0, P(j) < P(n), g)
            return [z3.Implies(bz(pre), bz(b_and(*rec)))]
        q = Quant(P(n), inst)
        c.quants.append(q)
        # instantiate eagerly at the generic index so later checks succeed
        k = generic_index(n)
        c.pc.extend(q.at(k))
    else:
        w = c.new_index("undef", n)
        g, rec = _record(n, guard, fn, w)
        c.assume(b_and(w >= 0, w < P(n), g, b_not(b_and(*rec))))
        raise PoisonUse("undefined array element (division by zero / domain error)")


def same_len(a, b):
    pa, pb = P(a), P(b)
    if pa.t == pb.t:
        return True
    return ctx().prove_quick(pa == pb)


class LenArr:
    """1-D sequence of symbolic length n; elements given by fn(index)."""
    __array_priority__ = 240
    __array_ufunc__ = None

    parts = None                  # concatenation: (fn, array of symbolic length, array of known length)

    def __init__(self, n, fn, guard=None, kind="array"):
        self.n = n if isinstance(n, Poly) else P(n)
        self._fn = fn
        self._memo = {}
        self.guard = guard
        self.kind = kind          # 'array' or 'list' or 'range'

    def __repr__(self):
        return f"LenArr(n={self.n}, guard={self.guard is not None})"

    def at(self, j):
        k = (P(j).key(), ctx().lenient)
        r = self._fn(P(j) if not isinstance(j, Poly) else j)
        return r

    def copy(self):
        r = LenArr(self.n, self._fn, self.guard, self.kind)
        r.parts = self.parts
        return r

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        r = self.copy()
        memo[id(self)] = r
        if self.kind == "list":
            import copy
            f = self._fn
            r._fn = lambda j: copy.deepcopy(f(j))
        return r

    def set_from(self, o):
        self._fn = o._fn
        self.n = o.n
        self.guard = o.guard

    @property
    def shape(self):
        return (self.length(),)

    @property
    def ndim(self):
        return 1

    @property
    def size(self):
        return self.length()

    @property
    def T(self):
        return self

    def length(self):
        if self.guard is None:
            return normal(self.n)
        return count(self)

    def map(self, f):
        g = self._fn
        return LenArr(self.n, lambda j: f(g(j)), self.guard)

    def _zip(self, o, f):
        if isinstance(o, LenArr):
            if not same_len(self.n, o.n):
                raise Unsupported("element-wise operation on arrays of different symbolic length")
            if (self.guard is None) != (o.guard is None):
                raise Unsupported("element-wise operation on a filtered and an unfiltered array")
            if self.guard is not None and not same_guard(self, o):
                raise Unsupported("element-wise operation on differently filtered arrays")
            a, b = self._fn, o._fn
            return LenArr(self.n, lambda j: f(a(j), b(j)), self.guard)
        if isinstance(o, np.ndarray) and o.ndim == 0:
            o = o.item()
        if isinstance(o, np.ndarray) and o.shape == (1,):
            o = o[0]
        if isinstance(o, (np.ndarray, list, tuple)):
            raise Unsupported("mixing concrete and symbolic length arrays")
        a = self._fn
        return LenArr(self.n, lambda j: f(a(j), o), self.guard)

    def __add__(self, o): return self._zip(o, lambda a, b: a + b)
    def __radd__(self, o): return self._zip(o, lambda a, b: b + a)
    def __sub__(self, o): return self._zip(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._zip(o, lambda a, b: b - a)
    def __mul__(self, o): return self._zip(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._zip(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._zip(o, _div)
    def __rtruediv__(self, o): return self._zip(o, lambda a, b: _div(b, a))
    def __pow__(self, o): return self._zip(o, lambda a, b: sym.spow(a, b))
    def __rpow__(self, o): return self._zip(o, lambda a, b: sym.spow(b, a))
    def __neg__(self): return self.map(lambda a: -P(a) if not isinstance(a, Vec) else a * (-1))
    def __abs__(self): return self.map(sym.sabs)
    def __lt__(self, o): return self._zip(o, lambda a, b: P(a) < b)
    def __le__(self, o): return self._zip(o, lambda a, b: P(a) <= b)
    def __gt__(self, o): return self._zip(o, lambda a, b: P(a) > b)
    def __ge__(self, o): return self._zip(o, lambda a, b: P(a) >= b)
    def __and__(self, o): return self._zip(o, lambda a, b: b_and(a, b))
    def __or__(self, o): return self._zip(o, lambda a, b: b_or(a, b))
    def __invert__(self): return self.map(b_not)
    def __eq__(self, o): return self._zip(o, lambda a, b: P(a) == b)
    def __ne__(self, o): return self._zip(o, lambda a, b: P(a) != b)
    __hash__ = None

    def __bool__(self):
        raise Unsupported("truth value of an array")


def _div(a, b):
    if isinstance(a, Vec):
        return a / b
    return sym.sdiv(a, b)


def same_guard(a, b):
    if a.guard is b.guard:
        return True
    c = ctx()
    with Generic(a.n) as k:
        ga, gb = a.guard(k), b.guard(k)
        if isinstance(ga, SymBool) and isinstance(gb, SymBool):
            if z3.eq(z3.simplify(ga.z), z3.simplify(gb.z)):
                return True
            return c.prove_quick(SymBool(ga.z == gb.z))
        return bool(ga) == bool(gb) if not isinstance(ga, SymBool) and not isinstance(gb, SymBool) else False


def arr_input(name, n, lo=None, hi=None, lo_open=False, is_int=False):
    """Uninterpreted array of reals of symbolic length."""
    c = ctx()

    def fn(j):
        j = P(j)
        a = c.atom(("elem", name, j.key()), f"{name}[{j}]", is_int=is_int, deps=j.deps())
        if a.info is None:
            a.info = (fn, j)
            if lo is not None and lo >= 0:
                a.nonneg = True
                a.pos = bool(lo > 0 or lo_open)
            z = c.zval(a)
            facts = []
            if lo is not None:
                facts.append(z > toz(lo) if lo_open else z >= toz(lo))
            if hi is not None:
                facts.append(z <= toz(hi))
            a.axioms = lambda: facts
        return Poly.atom(a)
    return LenArr(n, fn)


def vec_arr_input(name, n, dim, unit=False):
    c = ctx()
    table = {}

    def fn(j):
        j = P(j)
        k = j.key()
        if k not in table:
            v = VAtom(f"{name}[{j}]", norm=1 if unit else None, deps=j.deps(), kind="velem")
            v.info = (fn, j)
            if not unit:
                nm = v.norm().single_atom()
                nm.info = v
            table[k] = v
        return Vec(dim, {table[k]: 1})
    return LenArr(n, fn)


# ---- aggregates
def _guarded_value(arr):
    """fn at index with guard folded in as an indicator: returns (value poly, guard)"""
    return arr


def lsum(arr):
    """Sum of a LenArr of scalars or vectors."""
    if arr.parts is not None and arr.parts[0] is arr._fn and all(isinstance(x, (Poly, int, float, Fraction)) for x in arr.parts[2]):
        r = lsum(arr.parts[1])               # concatenation with an array of known length
        for x in arr.parts[2]:
            r = r + x
        return r
    return eval_generic(arr.n, arr.guard, arr.at, lambda k, v: _sum_at(arr, k, v))


def _sum_at(arr, k, v):
    g = arr.guard(k) if arr.guard is not None else True
    if isinstance(v, Vec):
        return _vsum_at(arr, k, v, g)
    if isinstance(v, (SymBool, bool)):
        v = v.as_poly() if isinstance(v, SymBool) else int(v)
    if isinstance(v, Poison):
        raise PoisonUse(v.why)
    p = P(v)
    if g is not True:
        p = P(p * (g.as_poly() if isinstance(g, SymBool) else int(g)))
    p = sym.renorm(p)
    return sum_poly(p, k, arr.n)


def sum_poly(p, k, n):
    c = ctx()
    kid = k.single_atom().id
    out = 0
    for m, co in sorted(p.t.items(), key=lambda x: x[0]):
        free, dep = [], []
        for aid, e in m:
            (dep if kid in c.atoms_by_id[aid].deps else free).append((aid, e))
        fp = Poly({tuple(free): co})
        if not dep:
            out = out + fp * P(n)
        else:
            out = out + fp * sum_atom(Poly({tuple(dep): Fraction(1)}), k, n)
    if len(p.t) > 1:
        _whole_sum(p, k, n, out)
    return out


def _outer_frame(c):
    """facts proved now hold on the whole path (not only under the assumptions of an inner frame)"""
    return sum(c.gen_depth.values()) <= 1 and sum(e is not None for e in c.explorers) <= 1


def _whole_sum(p, k, n, total):
    """sign facts about a sum whose terms are sums of monomials themselves"""
    c = ctx()
    kid = k.single_atom().id
    if kid not in p.deps() or not isinstance(total, Poly) or not _outer_frame(c):
        return
    tab = c.inputs.setdefault("__wsums__", {})
    key = (P(n).key(), p.key())
    if key in tab:
        return
    tab[key] = 1
    nz = P(n)
    for q, tot in ((p, total), (P(-p), P(-total))):
        mark = c.push()
        c.assume(b_and(k >= 0, k < nz))
        ok = c.prove_quick(q >= 0)
        c.pop(mark)
        if ok:
            def inst(j, q=q, tot=tot):
                m_j = P(subst_poly(q, kid, j))
                return [z3.Implies(bz(b_and(P(j) >= 0, P(j) < nz)), z3.And(toz(m_j) >= 0, toz(tot) >= toz(m_j))),
                        toz(tot) >= 0]
            c.whole.append(Quant(nz, inst))
            break


def sum_atom(dp, k, n):
    c = ctx()
    kid = k.single_atom().id
    a = c.atom(("sum", P(n).key(), dp.key()), f"sum({dp})", deps=dp.deps() - {kid})
    if a.info is None:
        nz = P(n)
        # sign of the generic term (decided under the current assumptions only)
        st = {"nonneg": sym.is_sos(dp), "nonpos": False}
        mark = c.push()
        c.assume(b_and(k >= 0, k < nz))
        if not st["nonneg"] and _outer_frame(c):
            st["nonneg"] = c.prove_quick(dp >= 0)
            st["nonpos"] = not st["nonneg"] and c.prove_quick(dp <= 0)
        c.pop(mark)
        integral = all(c.atoms_by_id[x].kind == "ind" or c.atoms_by_id[x].is_int for m in dp.t for x, _ in m)
        if st["nonneg"]:
            a.nonneg = True
        w = c.new_index("w", n)

        def axioms():
            m_w = P(subst_poly(dp, kid, w))
            rng = b_and(w >= 0, w < nz)
            out = [z3.Implies(a.z != 0, bz(b_and(rng, m_w != 0))),
                   z3.Implies(toz(nz) <= 0, a.z == 0)]
            if st["nonneg"]:
                out.append(a.z >= 0)
            if st["nonpos"]:
                out.append(a.z <= 0)
            if integral:
                out.append(z3.IsInt(a.z))
            return out
        a.axioms = axioms
        seen = []

        def inst(j):
            m_j = P(subst_poly(dp, kid, j))
            out = []
            rng = b_and(P(j) >= 0, P(j) < nz)
            if st["nonneg"]:
                out.append(z3.Implies(bz(rng), z3.And(toz(m_j) >= 0, a.z >= toz(m_j))))
                for j2, m2 in seen:
                    r2 = b_and(rng, j2 >= 0, j2 < nz, P(j) != j2)
                    if r2 is not False:
                        out.append(z3.Implies(bz(r2), a.z >= toz(P(m_j + m2))))
                if len(seen) < 4:
                    seen.append((P(j), m_j))
            if st["nonpos"]:
                out.append(z3.Implies(bz(rng), z3.And(toz(m_j) <= 0, a.z <= toz(m_j))))
            # n == 1: the sum is its only element
            one = b_and(rng, nz == 1)
            if one is not False:
                out.append(z3.Implies(bz(one), a.z == toz(m_j)))
            return out
        a.info = SumQuant(P(n), inst, dp, k)
    return Poly.atom(a)


class SumQuant(Quant):
    def __init__(self, n, inst, dp, k):
        super().__init__(n, inst)
        self.dp = dp
        self.k = k


class VSumInfo:
    def __init__(self, coef, vat, k, n):
        self.coef, self.vat, self.k, self.n = coef, vat, k, n

    def dot_with(self, o):
        if o.kind == "vsum":
            return None
        kid = self.k.single_atom().id
        if kid in o.deps:
            return None
        p = P(self.coef * gram(self.vat, o))
        return sum_poly(sym.renorm(p), self.k, self.n)


def _vsum_at(arr, k, v, g):
    c = ctx()
    kid = k.single_atom().id
    out = Vec(v.dim)
    gp = 1 if g is True else g.as_poly()
    for va, co in v.t.items():
        p = sym.renorm(P(co * gp))
        if kid not in va.deps:
            out = out + Vec(v.dim, {va: sum_poly(p, k, arr.n)})
            continue
        for m, cc in sorted(p.t.items(), key=lambda x: x[0]):
            free, dep = [], []
            for aid, e in m:
                (dep if kid in c.atoms_by_id[aid].deps else free).append((aid, e))
            dp = Poly({tuple(dep): Fraction(1)})
            key = ("vsum", P(arr.n).key(), dp.key(), va.id)
            tab = c.inputs.setdefault("__vsums__", {})
            if key not in tab:
                sv = VAtom(f"vsum({dp}*{va})", deps=(dp.deps() | va.deps) - {kid}, kind="vsum",
                           info=VSumInfo(dp, va, k, arr.n))
                nm = sv.norm().single_atom()

                # triangle inequality |sum m v| <= sum |m||v|
                def ax(nm=nm, dp=dp, va=va, k=k, n=arr.n):
                    t = sym.sabs(dp) * va.norm()
                    mark = c.push()
                    c.assume(b_and(k >= 0, k < P(n)))
                    s = sum_poly(sym.renorm(P(t)), k, n)
                    c.pop(mark)
                    return [nm.z >= 0, nm.z <= toz(s)]
                nm.axioms = ax
                tab[key] = sv
            out = out + Vec(v.dim, {tab[key]: normal(Poly({tuple(free): cc}))})
    return out


def count(arr):
    ones = LenArr(arr.n, lambda j: 1, arr.guard)
    return lsum(ones)


def _bool_atom(key, name, deps):
    c = ctx()
    a = c.atoms.get(key)
    if a is None:
        c._next += 1
        nm = f"{name}!{c._next}"
        a = sym.Atom(c._next, nm, key[0], key[1:], z3.Bool(nm), False, deps)
        c.atoms[key] = a
        c.atoms_by_id[a.id] = a
        c.by_zname[nm] = a
    return a


def lany(arr):
    return eval_generic(arr.n, arr.guard, arr.at, lambda k, v: _any_at(arr, k, v))


def _any_at(arr, k, v):
    c = ctx()
    g = arr.guard(k) if arr.guard is not None else True
    b = b_and(g, v if isinstance(v, (SymBool, bool)) else P(v) != 0)
    if b is False:
        return False
    nz = P(arr.n)
    if b is True:
        return nz > 0
    return any_atom(b, k, nz)


def any_atom(b, k, nz):
    c = ctx()
    kid = k.single_atom().id
    z = z3.simplify(b.z)
    # provable for every index?
    mark = c.push()
    c.assume(b_and(k >= 0, k < nz))
    allt = c.prove_quick(SymBool(z))
    none = (not allt) and c.prove_quick(SymBool(z3.Not(z)))
    c.pop(mark)
    if allt:
        return nz > 0
    if none:
        return False
    a = _bool_atom(("any", nz.key(), z.get_id()), "any", c.z_deps(z) - {kid})
    if a.info is None:
        w = c.new_index("wa", nz)

        def axioms():
            bw = mkb(subst_bool(z, kid, w, {}))
            return [z3.Implies(a.z, bz(b_and(w >= 0, w < nz, bw)))]

        def inst(j):
            bj = mkb(subst_bool(z, kid, j, {}))
            return [z3.Implies(bz(b_and(P(j) >= 0, P(j) < nz, bj)), a.z)]
        a.axioms = axioms
        a.info = Quant(nz, inst)
        a.args = (k, z)
    return SymBool(a.z)


def lall(arr):
    def neg(j):
        v = arr.at(j)
        return b_not(v if isinstance(v, (SymBool, bool)) else P(v) != 0)
    return b_not(lany(LenArr(arr.n, neg, arr.guard)))


def lmin(arr, mx=False):
    return eval_generic(arr.n, arr.guard, arr.at, lambda k, v: _min_at(arr, k, v, mx))


def _min_at(arr, k, v, mx):
    c = ctx()
    kid = k.single_atom().id
    p = sym.renorm(P(v))
    nz = P(arr.n)
    g = arr.guard(k) if arr.guard is not None else True
    gz = None if g is True else z3.simplify(bz(g))
    if p.is_const() or kid not in p.deps():
        return normal(p)
    a = c.atom(("lmax" if mx else "lmin", nz.key(), p.key(), None if gz is None else gz.get_id()),
               "max" if mx else "min", deps=p.deps() - {kid})
    if a.info is None:
        w = c.new_index("wm", nz)
        if sym.is_sos(p):
            a.nonneg = True

        def gd(j):
            return True if gz is None else mkb(subst_bool(gz, kid, j, {}))

        def axioms():
            # nonempty is established by the caller (numpy raises otherwise)
            return [bz(b_and(w >= 0, w < nz, gd(w), P(subst_poly(p, kid, w)) == Poly.atom(a)))]

        def inst(j):
            pj = P(subst_poly(p, kid, j))
            rel = Poly.atom(a) >= pj if mx else Poly.atom(a) <= pj
            return [z3.Implies(bz(b_and(P(j) >= 0, P(j) < nz, gd(j))), bz(rel))]
        a.axioms = axioms
        a.info = Quant(nz, inst)
        a.args = (w,)
    return Poly.atom(a)


def nonempty(arr):
    """SymBool: at least one element"""
    if arr.guard is None:
        return P(arr.n) > 0
    return lany(LenArr(arr.n, lambda j: True, arr.guard))


def largmin(arr, mx=False):
    """Index of the (first) minimum: returns an index term w with arr[w] == min."""
    m = lmin(arr, mx)
    if isinstance(m, Poly):
        at = m.single_atom()
        if at is not None and at.kind in ("lmin", "lmax"):
            if arr.guard is not None:
                raise Unsupported("argmin of a filtered array")
            return at.args[0]
    raise Unsupported("argmin")
