"""Symbolic reading of a contract: inputs are arbitrary, every S.ensure is a proof obligation."""
from __future__ import annotations
import copy as _copy
import math
import time
from fractions import Fraction
import numpy as np
import z3
from . import sym, vec, core, npmodel
from .sym import (normal, Poly, Poison, PoisonUse, SymBool, Unsupported, PyRaise, PathAbort, P, b_and, b_or, b_not, b_implies,
                  is_num, ctx)
from .vec import Vec, Mat, LenArr, Dim, VAtom
from .interp import Interp, SymObj, ExcVal, RepoFunc, BoundMethod
from .contract import Raised


class Obligation:
    __slots__ = ("name", "status", "detail", "model", "secs")

    def __init__(self, name, status, detail="", model=None, secs=0.0):
        self.name, self.status, self.detail, self.model, self.secs = name, status, detail, model, secs


class Stop(Exception):
    pass


def _b(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Poison):
        raise PoisonUse(x.why)
    if isinstance(x, Poly):
        return x != 0
    return bool(x)


class Turn:
    def __init__(self, parent):
        self.parent = parent


class SymS:
    sym = True

    def __init__(self, I, timeout_ms=10000):
        self.I = I
        self.c = ctx()
        self.inputs = {}
        self.oblig = []
        self.timeout_ms = timeout_ms
        self.pi = sym.pi()

    # ---- inputs
    def _reg(self, name, kind, v, **info):
        if name in self.inputs:
            n = 2
            while f"{name}#{n}" in self.inputs:
                n += 1
            name = f"{name}#{n}"
        self.inputs[name] = (kind, v, info)
        return v

    def dim(self, name="D", lo=2, hi=None):
        d = Dim(name, lo)
        return self._reg(name, "dim", d)

    def dval(self, D):
        return D.p if isinstance(D, Dim) else D

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = sym.fresh(name)
        at = v.single_atom()
        if lo is not None:
            if is_num(lo) and lo >= 0:
                at.nonneg = True
                at.pos = lo > 0 or lo_open
                at.axioms = lambda: [at.z > 0] if at.pos else [at.z >= 0]
            self.c.assume((v > lo) if lo_open else (v >= lo))
        if hi is not None:
            self.c.assume((v < hi) if hi_open else (v <= hi))
        return self._reg(name, "real", v)

    def int(self, name, lo=0, hi=5):
        """bounded integer: enumerated"""
        return self.choice(name, list(range(lo, hi + 1)))

    def size(self, name, lo=0, hi=5):
        """array length: any natural number >= lo"""
        v = sym.fresh(name, is_int=True, nonneg=True)
        at = v.single_atom()
        at.axioms = lambda: [at.z >= lo]
        at.pos = lo > 0
        return self._reg(name, "size", v)

    def index(self, name, n):
        """any index of an array of length n"""
        v = self.size(name, 0)
        self.assume(v < n)
        sym.ctx().idx_terms.append((P(v), P(n)))
        return v

    def choice(self, name, options):
        c = self.c
        for i in range(len(options) - 1):
            b = SymBool(z3.Bool(f"choice!{name}!{i}!{len(self.inputs)}"))
            if c.decide(b):
                self._reg(name, "choice", i)
                return options[i]
        self._reg(name, "choice", len(options) - 1)
        return options[-1]

    def bool(self, name):
        return self.choice(name, [False, True])

    def vec(self, name, D, nonzero=False, max_norm=None):
        if isinstance(D, int):
            r = np.empty(D, dtype=object)
            for i in range(D):
                r[i] = sym.fresh(f"{name}{i}")
            self._reg(name, "arr", r.copy())
            n2 = self.norm(r)
            if nonzero:
                self.c.assume(n2 > 0)
            if max_norm is not None:
                self.c.assume(n2 <= max_norm)
            return r
        a = VAtom(name)
        if nonzero:
            nm = a.norm().single_atom()
            nm.pos = True
            nm.axioms = lambda: [nm.z > 0]
        if max_norm is not None:
            self.c.assume(a.norm() <= max_norm)
        v = Vec(D, {a: 1})
        self._reg(name, "vec", v.copy(), dim=D)
        return v

    def unit(self, name, D):
        if isinstance(D, int):
            r = np.empty(D, dtype=object)
            for i in range(D):
                r[i] = sym.fresh(f"{name}{i}")
            last = r[D - 1].single_atom()
            p = 1
            for i in range(D - 1):
                p = p - r[i] * r[i]
            self.c.rules[(last.id, last.id)] = P(p)
            self.c.assume(SymBool(sum((sym.toz(x * 1) * sym.toz(x * 1) for x in r[1:]), sym.toz(r[0]) * sym.toz(r[0])) == 1))
            self._reg(name, "arr", r.copy())
            return r
        v = Vec(D, {VAtom(name, norm=1): 1})
        self._reg(name, "vec", v.copy(), dim=D)
        return v

    def any_vec(self, name, like, norm):
        """an unknown result vector of given length (summaries only)"""
        if isinstance(like, Vec):
            return Vec(like.dim, {VAtom(name, norm=norm): 1})
        if isinstance(like, np.ndarray) and like.ndim == 1:
            r = np.empty(len(like), dtype=object)
            for i in range(len(like)):
                r[i] = sym.fresh(f"{name}{i}")
            p = P(norm) * P(norm)
            self.c.assume(SymBool(sum((sym.toz(x * 1) * sym.toz(x * 1) for x in r[1:]), sym.toz(r[0]) * sym.toz(r[0])) == sym.toz(p)))
            last = r[-1].single_atom()
            for x in r[:-1]:
                p = p - x * x
            self.c.rules[(last.id, last.id)] = P(p)
            return r
        raise Unsupported("unknown vector of concrete dimension")

    def any_real(self, name, spec):
        """an unknown scalar result with the given property (summaries only)"""
        v = sym.fresh(name)
        self.c.assume(spec(v))
        return v

    def strong_forms(self):
        """from here on positive factors are taken out of square roots and absolute values of known sign are resolved (normal forms; no effect on the values)"""
        self.c.strong_forms = True

    def turned(self, name, parent, D=None, same=False):
        """A unit direction at an angle in (0, pi) (0.003 apart from 0 and pi) from the parent direction:
        .v = cos(angle) parent.v + sin(angle) .p with .p a unit vector orthogonal to parent.v.  parent None: any unit
        vector; same: equal to the parent."""
        t = Turn(parent)
        if parent is None:
            t.v = self.unit(name, D)
            return t
        if same:
            t.v, t.angle, t.c, t.s = parent.v, 0, 1, 0
            (_, t.p) = self.turned_perp(name, parent)
            return t
        t.c = self.real(name + "_cos", -1 + Fraction(46, 10**7), 1 - Fraction(46, 10**7))
        t.angle, t.s = sym.sarccos(t.c), sym.ssqrt(1 - t.c * t.c)
        (_, t.p) = self.turned_perp(name, parent)
        t.v = parent.v * t.c + t.p * t.s
        return t

    def turned_perp(self, name, parent):
        a = VAtom(name + "_perp", norm=1)

        def dots(node, g):
            """make <a, node.v> = g"""
            if node.parent is None:
                (at, ), = [tuple(node.v.t)]
                vec.set_gram(a, at, P(g))
                return
            e = sym.fresh(name + "_free")        # <a, -sin v_parent + cos p>
            pa, = node.p.t
            vec.set_gram(a, pa, P(node.s * g + node.c * e))
            dots(node.parent, P(node.c * g - node.s * e))
        dots(parent, P(0))
        v = Vec(parent.v.dim, {a: 1})
        self._reg(name + "_perp", "vec", v.copy(), dim=v.dim)
        return a, v

    def set_dot(self, a, b, value):
        """inner product of two unknown result vectors (summaries only)"""
        (x,), (y,) = a.t, b.t
        vec.set_gram(x, y, value)

    def obasis(self, name, D):
        from .npmodel import OrthoBasis
        a = VAtom(name + "0", norm=1)
        return OrthoBasis(Vec(D, {a: 1}))

    def basis(self, name, D):
        if isinstance(D, int):
            if D == 2:
                x, y = sym.fresh(name + "x"), sym.fresh(name + "y")
                ya = y.single_atom()
                self.c.rules[(ya.id, ya.id)] = P(1 - x * x)
                self.c.assume(SymBool(sym.toz(x) * sym.toz(x) + ya.z * ya.z == 1))
                s = self.choice(name + "_chir", [1, -1])
                m = np.empty((2, 2), dtype=object)
                m[0, 0], m[1, 0] = x, y
                m[0, 1], m[1, 1] = -y * s, x * s
                self._reg(name, "mat", m.copy())
                return m
            raise Unsupported("concrete dimension basis")
        a, b = VAtom(name + "0", norm=1), VAtom(name + "1", norm=1)
        vec.set_gram(a, b, 0)
        m = Mat(D, [Vec(D, {a: 1}), Vec(D, {b: 1})])
        self._reg(name, "basis", m.copy(), dim=D)
        return m

    def arr(self, name, n, lo=None, hi=None, lo_open=False):
        if isinstance(n, int):
            r = np.empty(n, dtype=object)
            for i in range(n):
                x = sym.fresh(f"{name}{i}")
                at = x.single_atom()
                if lo is not None:
                    if lo >= 0:
                        at.nonneg = True
                        at.pos = bool(lo > 0 or lo_open)
                        at.axioms = (lambda at: lambda: [at.z > 0] if at.pos else [at.z >= 0])(at)
                    self.c.assume(x > lo if lo_open else x >= lo)
                if hi is not None:
                    self.c.assume(x <= hi)
                r[i] = x
            self._reg(name, "arr", r.copy())
            return r
        a = vec.arr_input(name, n, lo, hi, lo_open)
        self._reg(name, "lenarr", a.copy(), n=n, lo=lo, hi=hi)
        return a

    def vecs(self, name, n, D, unit=False):
        if isinstance(n, int):
            if isinstance(D, int):
                m = np.empty((D, n), dtype=object)
                for i in range(n):
                    m[:, i] = [sym.fresh(f"{name}{i}_{d}") for d in range(D)]
                self._reg(name, "mat", m.copy())
                return m
            m = Mat(D, [Vec(D, {VAtom(f"{name}{i}", norm=1 if unit else None): 1}) for i in range(n)])
            self._reg(name, "basis", m.copy(), dim=D)
            return m
        a = vec.vec_arr_input(name, n, D, unit)
        self._reg(name, "lenvec", a.copy(), n=n, dim=D)
        return a

    def objects(self, n, f):
        """list of n mock objects, f(j) builds the j-th"""
        if isinstance(n, int):
            return [f(j) for j in range(n)]
        return vec.LenArr(n, f, None, "list")

    def mat(self, name, r, c, lo=None, hi=None):
        m = np.empty((r, c), dtype=object)
        for i in range(r):
            for j in range(c):
                m[i, j] = sym.fresh(f"{name}{i}_{j}")
        self._reg(name, "mat", m.copy())
        return m

    def mock(self, fields=None, methods=None, cls=None, name="mock", absent=()):
        ms = {}
        for k, f in (methods or {}).items():
            ms[k] = (lambda f: (lambda I, o, *a, **kw: f(o, *a, **kw)))(f)
        rc = self.I.load(cls) if cls is not None else None
        o = SymObj(rc, dict(fields or {}), name, ms)
        o.absent = tuple(absent)
        return o

    # ---- code under contract
    def load(self, full):
        return self.I.load(full)

    cls = load

    def _w(self, f):
        return lambda *a, **k: self.I.call(f, list(a), k)

    def isa(self, o, name):
        return any(getattr(c, "name", None) == name for c in o.cls.mro())

    def fn(self, full):
        return self._w(self.I.load(full))

    def new(self, full, *a, **k):
        return self.I.call(self.I.load(full), list(a), k)

    def raw(self, full, **fields):
        return SymObj(self.I.load(full), dict(fields))

    def m(self, o, meth, *a, **k):
        return self.I.call(self.I.getattr(o, meth), list(a), k)

    def get(self, o, n):
        return self.I.getattr(o, n)

    def set(self, o, n, v):
        self.I.setattr(o, n, v)

    def catch(self, fn):
        try:
            return fn()
        except PyRaise as e:
            return Raised(exc_name(e.exc))

    def defined(self, fn):
        try:
            r = fn()
        except sym.PoisonUse:
            return Raised("undefined")
        return Raised("undefined") if isinstance(r, Poison) else r

    def copy(self, x):
        return _copy.deepcopy(x)

    # ---- spec operators
    def eq(self, a, b, tol=None):
        return self._eq(a, b, 0)

    def near(self, a, b, tol):
        return self._eq(a, b, tol)

    def _eq(self, a, b, tol):
        if a is None or b is None:
            return a is b
        if isinstance(a, Poison) or isinstance(b, Poison):
            return False
        if isinstance(a, Vec) or isinstance(b, Vec):
            if not isinstance(b, Vec):
                if is_num(b) and b == 0:
                    b = Vec(a.dim)
                elif isinstance(b, np.ndarray) and all(is_num(x) and x == 0 for x in b.flat):
                    b = Vec(a.dim)
                else:
                    raise Unsupported(f"vector equality with {type(b).__name__}")
            if not isinstance(a, Vec):
                return self._eq(b, a, tol)
            d = a - b
            for x in d.t.values():
                if isinstance(x, Poison):
                    return False
            if tol:
                n2 = d.dot(d)
                return P(n2) <= Fraction(tol).limit_denominator(10**9) ** 2 if not is_num(n2) else n2 <= tol * tol
            return a.eq(b)
        if isinstance(a, Mat) and isinstance(b, Mat):
            if len(a.cols) != len(b.cols):
                return False
            return b_and(*[self._eq(x, y, tol) for x, y in zip(a.cols, b.cols)])
        if isinstance(a, LenArr) and isinstance(b, LenArr):
            if not vec.same_len(a.n, b.n):
                return False
            return vec.lall(LenArr(a.n, lambda j: self._eq(a.at(j), b.at(j), tol), a.guard))
        if isinstance(a, LenArr) or isinstance(b, LenArr):
            if is_num(b) or isinstance(b, Poly):
                return vec.lall(LenArr(a.n, lambda j: self._eq(a.at(j), b, tol), a.guard))
            raise Unsupported("equality of a symbolic-length array with a concrete one")
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            A, B = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
            if A.shape != B.shape and A.size != 1 and B.size != 1:
                return False
            A, B = np.broadcast_arrays(A, B)
            out = True
            for x, y in zip(A.flat, B.flat):
                out = b_and(out, self._eq(x, y, tol))
            return out
        if not isinstance(a, (Poly, SymBool)) and not is_num(a) or not isinstance(b, (Poly, SymBool)) and not is_num(b):
            if type(a) is type(b):
                return a == b
            return False
        if tol:
            t = Fraction(tol).limit_denominator(10**9)
            d = P(a) - P(b)
            return b_and(P(d) <= t, P(d) >= -t)
        if is_num(a) and is_num(b):
            return P(a).t == P(b).t if not _inf(a) and not _inf(b) else a == b
        if (is_num(a) and _inf(a)) or (is_num(b) and _inf(b)):
            return False
        return P(a) == P(b)

    def _rel(self, a, b, op):
        for x in (a, b):
            if isinstance(x, Poison):
                return False
        a, b = self._s(a), self._s(b)
        if is_num(a) and is_num(b):
            return {"<": a < b, "<=": a <= b}[op]
        if is_num(a) and _inf(a):
            return a < 0
        if is_num(b) and _inf(b):
            return b > 0
        return P(a) < b if op == "<" else P(a) <= b

    def _s(self, x):
        if isinstance(x, np.ndarray) and x.size == 1:
            return x.reshape(-1)[0]
        if isinstance(x, (np.floating, np.integer)):
            return x.item()
        return x

    def le(self, a, b): return self._rel(a, b, "<=")
    def ge(self, a, b): return self._rel(b, a, "<=")
    def lt(self, a, b): return self._rel(a, b, "<")
    def gt(self, a, b): return self._rel(b, a, "<")

    def within(self, lo, x, hi):
        return b_and(self.le(lo, x), self.le(x, hi))

    def finite(self, x):
        if isinstance(x, Poison) or (is_num(x) and (_inf(x) or x != x)):
            return False
        if isinstance(x, Vec):
            return not any(isinstance(v, Poison) for v in x.t.values())
        if isinstance(x, np.ndarray):
            return all(self.finite(v) for v in x.flat)
        if isinstance(x, LenArr):
            vec.eval_generic(x.n, x.guard, x.at, lambda k, v: self.finite(v))
            return True
        return True

    def norm(self, v):
        if isinstance(v, Vec):
            return v.norm()
        s = 0
        for x in np.asarray(v, dtype=object).flat:
            s = s + x * x
        return sym.ssqrt(s)

    def dot(self, a, b):
        if isinstance(a, Vec):
            return a.dot(b)
        s = 0
        for x, y in zip(np.asarray(a).flat, np.asarray(b).flat):
            s = s + x * y
        return s

    def col(self, m, i):
        return self.I.getitem(m, (slice(None), i))

    vat = None

    def matvec(self, m, v):
        return npmodel.dot(self.I, m, v)

    def zero(self, D):
        return Vec(D) if isinstance(D, Dim) else np.array([0] * D, dtype=object)

    def stack(self, vs):
        if isinstance(vs[0], Vec):
            return Mat(vs[0].dim, [v.copy() for v in vs])
        return np.array([list(v) for v in vs], dtype=object).T

    def array(self, xs):
        return npmodel.make_array(list(xs)) if len(xs) else np.zeros(0, dtype=object)

    def sqrt(self, x): return sym.ssqrt(x)
    def cos(self, x): return sym.scos(x)
    def sin(self, x): return sym.ssin(x)
    def exp(self, x): return sym.sexp(x)
    def abs(self, x): return sym.sabs(x)
    def atan2(self, y, x): return sym.satan2(y, x)
    def arccos(self, x): return sym.sarccos(x)

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = sym.smin(r, x)
        return r

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = sym.smax(r, x)
        return r

    def ite(self, c, a, b):
        return npmodel.merge_val(c, a, b) if isinstance(c, SymBool) else (a if c else b)

    def And(self, *x): return b_and(*[_b(v) for v in x])
    def Or(self, *x): return b_or(*[_b(v) for v in x])
    def Not(self, x): return b_not(_b(x))
    def Implies(self, a, b): return b_implies(_b(a), _b(b))

    def Iff(self, a, b):
        a, b = _b(a), _b(b)
        return b_and(b_implies(a, b), b_implies(b, a))

    def len(self, a):
        return npmodel.b_len(self.I, a)

    def at(self, a, j):
        if isinstance(a, LenArr):
            return a.at(j)
        return self.I.getitem(a, j)

    def forall(self, n, f):
        if isinstance(n, Poly):
            return vec.lall(LenArr(n, lambda j: _b(f(j))))
        return b_and(*[_b(f(j)) for j in range(int(n))])

    def exists(self, n, f):
        if isinstance(n, Poly):
            return vec.lany(LenArr(n, lambda j: _b(f(j))))
        return b_or(*[_b(f(j)) for j in range(int(n))])

    def sum(self, a):
        if isinstance(a, LenArr):
            return vec.lsum(a)
        s = 0
        for x in np.asarray(a, dtype=object).flat:
            s = s + x
        return s

    def sumf(self, n, f):
        if isinstance(n, Poly):
            return vec.lsum(LenArr(n, f))
        s = 0
        for j in range(int(n)):
            s = s + f(j)
        return s

    def amin(self, a):
        if isinstance(a, LenArr):
            return vec.lmin(a)
        return self.min(*list(np.asarray(a, dtype=object).flat))

    def amax(self, a):
        if isinstance(a, LenArr):
            return vec.lmin(a, True)
        return self.max(*list(np.asarray(a, dtype=object).flat))

    def true(self, c):
        return bool(_b(c))

    def isnone(self, x):
        return x is None

    def raised(self, r, *names):
        return isinstance(r, Raised) and (not names or r.name in names)

    def assume(self, c):
        c = _b(c)
        if c is True:
            return
        if c is False:
            raise PathAbort("precondition false")
        self.c.assume(c)

    def ensure(self, name, cond, tol=None):
        t0 = time.time()
        try:
            b = _b(cond)
        except PoisonUse as e:
            b = False
        st, model = self.c.prove(b, self.timeout_ms)
        if st == "refuted" and b is False:
            # the path itself may be infeasible without the quick check noticing
            pass
        det = ""
        if st != "proved":
            det = "False" if b is False else str(z3.simplify(b.z))[:600]
        self.oblig.append(Obligation(name, st, det, (model, dict(self.inputs)) if model is not None else None,
                                     time.time() - t0))
        if st == "proved" and isinstance(b, SymBool):
            self.c.assume(b)      # available to later obligations

    def holds(self, c):
        """whether a condition follows on this path (used for the precondition of a callee's contract)"""
        return self.c.prove_quick(_b(c))

    def lemma_cauchy(self, a, b):
        """Cauchy-Schwarz for two vectors of the specification (a mathematical fact, not an assumption on the code)"""
        if isinstance(a, Vec):
            d = P(a.dot(b))
            self.c.assume(SymBool(sym.toz(d) * sym.toz(d) <= sym.toz(P(a.dot(a))) * sym.toz(P(b.dot(b)))))

    def lemma_cos(self, theta):
        """cos is decreasing on [0, pi]: cos a >= cos theta for the angles 0 <= a <= theta <= pi met so far (a mathematical fact)"""
        c, t = sym.toz(P(sym.scos(theta))), sym.toz(P(theta))
        piz = sym.toz(sym.pi())
        for (m, unit), (ca, _) in list(sym.ctx().trig_known.items()):
            a = sym.toz(Poly({m: unit}))
            self.c.assume(SymBool(z3.Implies(z3.And(0 <= a, a <= t, t <= piz), sym.toz(ca) >= c)))

    def lemma_triangle(self, v):
        """triangle inequality |sum c_i v_i| <= sum |c_i| |v_i| for a linear combination (a mathematical fact)"""
        if isinstance(v, Vec):
            tot = 0
            for a, co in v.renorm().items():
                tot = tot + sym.sabs(co) * a.norm()
            self.c.assume(P(v.norm()) <= tot)

    def note(self, s):
        self.c.notes.add(s)


def _inf(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


def exc_name(e):
    if isinstance(e, ExcVal):
        return e.name
    if isinstance(e, tuple) and e and isinstance(e[0], str):
        return e[0]
    return type(e).__name__


SymS.vat = lambda self, m, j: (m.at(j) if isinstance(m, LenArr) else self.I.getitem(m, (slice(None), j)))


# ---------------------------------------------------------------------------- model -> concrete inputs
def _val(model, z):
    v = model.eval(z, model_completion=True)
    try:
        if z3.is_algebraic_value(v):
            v = v.approx(30)
        if z3.is_int_value(v):
            return float(v.as_long())
        if z3.is_rational_value(v):
            f = v.as_fraction()
            return float(f)
    except Exception:
        pass
    try:
        return float(v.as_decimal(20).rstrip("?"))
    except Exception:
        return 0.0


def concretise(c, model, inputs):
    """Concrete values for the contract's inputs from a solver model (best effort)."""
    old = sym.set_ctx(c)
    c.explorers.append(None)
    try:
        ev = lambda x: float(x) if is_num(x) else _val(model, sym.toz(P(x)))
        out = {}
        vats = []

        def addv(v):
            for a in v.t:
                if a not in vats:
                    vats.append(a)
        sizes = {}
        for name, (kind, v, info) in inputs.items():
            if kind == "size":
                sizes[name] = int(round(ev(v)))
                out[name] = min(sizes[name], 12)
        lens = {}
        for name, (kind, v, info) in inputs.items():
            if kind == "real":
                out[name] = ev(v)
            elif kind == "choice":
                out[name] = v
            elif kind in ("arr", "mat"):
                a = np.array([ev(x) for x in v.flat], dtype=float).reshape(v.shape)
                out[name] = a
            elif kind == "vec":
                addv(v)
            elif kind == "basis":
                for col in v.cols:
                    addv(col)
            elif kind in ("lenarr", "lenvec"):
                n = min(int(round(ev(info["n"]))), 12)
                row = [None] * n
                for (j, nn) in list(c.idx_terms):
                    jj = ev(j)
                    if jj != int(jj) or not (0 <= jj < n):
                        continue
                    e = v.at(j)
                    row[int(jj)] = e
                lens[name] = (kind, row, info, v)
                if kind == "lenvec":
                    for e in row:
                        if e is not None:
                            addv(e)
        dims = [(n, v) for n, (k, v, i) in inputs.items() if k == "dim"]
        D = None
        coords = {}
        if dims:
            dn, d = dims[0]
            for i in range(d.lo):
                if i in d.basis and d.basis[i] not in vats:
                    vats.append(d.basis[i])
            k = len(vats)
            G = np.zeros((k, k))
            for i in range(k):
                for j in range(i, k):
                    G[i, j] = G[j, i] = ev(vec.gram(vats[i], vats[j]))
            if k:
                w, U = np.linalg.eigh(G)
                X = U * np.sqrt(np.clip(w, 0, None))
                keep = [i for i in range(k) if w[i] > 1e-9]
                X = X[:, keep]
                D = max(d.lo, min(max(X.shape[1], d.lo), 8))
                if X.shape[1] > D:
                    X = X[:, -D:]
                if X.shape[1] < D:
                    X = np.hstack([X, np.zeros((k, D - X.shape[1]))])
                # rotate so that named basis vectors are coordinate axes
                eb = [vats.index(d.basis[i]) for i in sorted(d.basis) if d.basis[i] in vats]
                if eb:
                    Q = [X[i] / (np.linalg.norm(X[i]) or 1) for i in eb]
                    M = np.array(Q).T
                    q, r = np.linalg.qr(np.hstack([M, np.random.RandomState(0).normal(size=(D, D))]))
                    q = q[:, :D] * np.where(np.diag(r)[:D] < 0, -1, 1)
                    X = X @ q
                for a, x in zip(vats, X):
                    coords[a] = x
            else:
                D = d.lo
            for n, dd in dims:
                out[n] = D

        def co(v):
            r = np.zeros(D)
            for a, cc in v.t.items():
                r = r + ev(cc) * coords[a]
            return r
        for name, (kind, v, info) in inputs.items():
            if kind == "vec":
                out[name] = co(v)
            elif kind == "basis":
                out[name] = np.array([co(x) for x in v.cols]).T
        rs = np.random.RandomState(1)
        for name, (kind, row, info, v) in lens.items():
            if kind == "lenarr":
                lo = info["lo"] if info["lo"] is not None else -2
                hi = info["hi"] if info["hi"] is not None else lo + 3
                out[name] = np.array([ev(e) if e is not None else rs.uniform(float(lo), float(hi)) for e in row])
            else:
                cols = [co(e) if e is not None else rs.normal(size=D) for e in row]
                out[name] = np.array(cols).T.reshape(D, len(row))
        return out
    finally:
        c.explorers.pop()
        sym.set_ctx(old)
