"""Symbolic scalars (polynomials over atoms with reduction rules), booleans and path context."""
from __future__ import annotations
import math
import numpy as np
import itertools
from fractions import Fraction
import z3


class Unsupported(Exception):
    """The construct is outside the verifier's reach (never reported as a violation)."""


class PathAbort(Exception):
    """The current path is infeasible."""


class PyRaise(Exception):
    """A Python exception raised by the interpreted code."""

    def __init__(self, exc):
        super().__init__(str(exc))
        self.exc = exc


class PoisonUse(Exception):
    """An undefined number (division by zero, sqrt of negative, ...) was inspected."""


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    old = CTX
    CTX = c
    return old


class Atom:
    __slots__ = ("id", "name", "kind", "args", "z", "is_int", "deps", "nonneg",
                 "pos", "axioms", "info", "_ax_cache", "vnorm")

    def __init__(self, id, name, kind, args, z, is_int=False, deps=frozenset()):
        self.id = id
        self.name = name
        self.kind = kind
        self.args = args
        self.z = z
        self.is_int = is_int
        self.deps = deps
        self.nonneg = False
        self.pos = False
        self.axioms = None
        self.info = None
        self._ax_cache = None
        self.vnorm = False

    def __repr__(self):
        return self.name


def _num(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        return Fraction(repr(x))
    return None


def is_num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, Poly)


class Poison:
    """Result of an operation that has no defined real value."""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Poison({self.why})"

    def _p(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _p
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __abs__ = _p

    def _c(self, *a):
        raise PoisonUse(self.why)
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = _c


ZERO_M = ()


def _each(a, f):
    r = np.empty(a.shape, dtype=object)
    for k in np.ndindex(a.shape):
        r[k] = f(a[k])
    return r


class Poly:
    """Immutable polynomial over atoms with rational coefficients."""
    __slots__ = ("t", "_h")
    __array_priority__ = 100
    __array_ufunc__ = None  # let object arrays dispatch element-wise through python operators

    def __init__(self, t):
        self.t = t
        self._h = None

    # -- constructors
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({ZERO_M: c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a.id, 1),): Fraction(1)})

    # -- inspection
    def is_const(self):
        return not self.t or (len(self.t) == 1 and ZERO_M in self.t)

    def const_value(self):
        return self.t.get(ZERO_M, Fraction(0))

    def key(self):
        return frozenset(self.t.items())

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def same(self, o):
        return self.t == o.t

    def atoms(self):
        c = ctx()
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return [c.atoms_by_id[i] for i in s]

    def deps(self):
        d = frozenset()
        for a in self.atoms():
            d |= a.deps
        return d

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return ctx().atoms_by_id[m[0][0]]
        return None

    def is_int(self):
        return all(c.denominator == 1 for c in self.t.values()) and all(
            a.is_int for a in self.atoms())

    def __repr__(self):
        if not self.t:
            return "0"
        c = ctx()
        out = []
        for m, k in sorted(self.t.items(), key=lambda x: x[0]):
            ms = "*".join((c.atoms_by_id[a].name if c else f"a{a}") + (f"^{e}" if e > 1 else "") for a, e in m)
            if not m:
                out.append(str(k))
            elif k == 1:
                out.append(ms)
            else:
                out.append(f"{k}*{ms}")
        return " + ".join(out)

    # -- arithmetic
    def _coerce(self, o):
        if isinstance(o, Poly):
            return o
        if isinstance(o, SymBool):
            return o.as_poly()
        n = _num(o)
        if n is None:
            return None
        return Poly.const(n)

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return _each(o, lambda e: self + e)
        if isinstance(o, Poison):
            return o
        if isinstance(o, float) and math.isinf(o):
            return o
        p = self._coerce(o)
        if p is None:
            return NotImplemented
        return normal(padd(self, p))
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return _each(o, lambda e: self - e)
        if isinstance(o, Poison):
            return o
        p = self._coerce(o)
        if p is None:
            return NotImplemented
        return normal(padd(self, -p))

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return _each(o, lambda e: e - self)
        if isinstance(o, Poison):
            return o
        p = self._coerce(o)
        if p is None:
            return NotImplemented
        return normal(padd(p, -self))

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return _each(o, lambda e: self * e)
        if isinstance(o, Poison):
            return o
        p = self._coerce(o)
        if p is None:
            return NotImplemented
        return normal(pmul(self, p))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return _each(o, lambda e: self / e)
        if isinstance(o, Poison):
            return o
        if isinstance(o, float) and math.isinf(o):
            return 0
        p = self._coerce(o)
        if p is None:
            return NotImplemented
        return sdiv(self, p)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return _each(o, lambda e: e / self)
        if isinstance(o, Poison):
            return o
        p = self._coerce(o)
        if p is None:
            return NotImplemented
        return sdiv(p, self)

    def __pow__(self, o):
        return spow(self, o)

    def __rpow__(self, o):
        return spow(o, self)

    def __abs__(self):
        return sabs(self)

    def __mod__(self, o):
        raise Unsupported("symbolic modulo")

    def __floordiv__(self, o):
        raise Unsupported("symbolic floor division")

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, Poison):
            raise PoisonUse(o.why)
        if isinstance(o, float) and math.isinf(o):
            return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False, "!=": True}[op]
        p = self._coerce(o)
        if p is None:
            return NotImplemented
        d = padd(self, -p)
        d = normal(d)
        return cmp0(d, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __bool__(self):
        if self.is_const():
            return self.const_value() != 0
        return bool(self != 0)

    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(self.const_value())
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.is_const() and self.const_value().denominator == 1:
            return int(self.const_value())
        raise Unsupported("symbolic value used as an index")

    # numpy object arrays call these methods
    def sqrt(self):
        return ssqrt(self)

    def cos(self):
        return scos(self)

    def sin(self):
        return ssin(self)

    def exp(self):
        return sexp(self)

    def conjugate(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def padd(a, b):
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m, 0) + c
        if n:
            t[m] = n
        else:
            t.pop(m, None)
    return Poly(t)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def _reduce_mono(m):
    """Find an applicable rewrite rule. Returns (rest monomial, poly) or None."""
    rules = ctx().rules
    if not rules:
        return None
    inv_rules = ctx().inv_rules
    for i, (a, e) in enumerate(m):
        if a in inv_rules:
            lead, r = inv_rules[a]
            d = dict(m)
            for b, f in lead:
                if d.get(b, 0) < f:
                    break
            else:
                for b, f in lead:
                    d[b] -= f
                d[a] -= 1
                return tuple(sorted((x, y) for x, y in d.items() if y)), r
        if e >= 2 and (a, a) in rules:
            rest = m[:i] + (((a, e - 2),) if e > 2 else ()) + m[i + 1:]
            return rest, rules[(a, a)]
        for j in range(i + 1, len(m)):
            b, f = m[j]
            r = rules.get((a, b))
            if r is not None:
                rest = (m[:i] + (((a, e - 1),) if e > 1 else ()) + m[i + 1:j]
                        + (((b, f - 1),) if f > 1 else ()) + m[j + 1:])
                return rest, r
    return None


def pmul(a, b):
    out = {}
    work = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            work.append((mono_mul(m1, m2), c1 * c2))
    n = 0
    while work:
        n += 1
        if n > 20000:
            raise Unsupported("polynomial blow-up")
        m, c = work.pop()
        r = _reduce_mono(m)
        if r is None:
            k = out.get(m, 0) + c
            if k:
                out[m] = k
            else:
                out.pop(m, None)
        else:
            rest, p = r
            for pm, pc in p.t.items():
                work.append((mono_mul(rest, pm), c * pc))
    return Poly(out)


def normal(p):
    """Return python numbers for constants, abbreviate huge polynomials."""
    if p.is_const():
        c = p.const_value()
        return int(c) if c.denominator == 1 else c
    if len(p.t) > 400:
        return abbreviate(p)
    return p


def renorm(p):
    """Re-apply rewrite rules (rules may have been added since p was built)."""
    return pmul(p, Poly.const(1))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, SymBool):
        return x.as_poly()
    if isinstance(x, Poison):
        raise PoisonUse(x.why)
    n = _num(x)
    if n is None:
        raise Unsupported(f"cannot turn {type(x).__name__} {x!r} into a real")
    return Poly.const(n)


def abbreviate(p):
    c = ctx()
    a = c.atom(("abbr", p.key()), "t", deps=p.deps())
    if a.axioms is None:
        a.axioms = lambda: [a.z == toz(p)]
        a.info = p
    return Poly.atom(a)


def toz(x):
    if isinstance(x, Poly):
        return ctx().poly_z3(x)
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    n = _num(x)
    if n is None:
        raise Unsupported(f"toz {x!r}")
    return z3.RealVal(n)


def cmp0(d, op):
    """Compare polynomial-or-number d with zero."""
    if not isinstance(d, Poly):
        return {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[op]
    # content normalisation: strip positive scale
    lead = next(iter(sorted(d.t.items())))[1]
    s = abs(lead)
    if s != 1:
        d = Poly({m: c / s for m, c in d.t.items()})
    # single atom with sign knowledge
    if op in ("==", "!=") and next(iter(sorted(d.t.items())))[1] < 0:
        d = -d
    if len(d.t) == 1:
        (m, c), = d.t.items()
        at = [ctx().atoms_by_id[a] for a, _ in m]
        if all(a.pos for a in at):
            sg = c > 0
            return {"<": not sg, "<=": not sg, ">": sg, ">=": sg, "==": False, "!=": True}[op]
        if all(a.nonneg or a.pos for a in at):
            if (op == ">=" and c > 0) or (op == "<=" and c < 0):
                return True
            if (op == "<" and c > 0) or (op == ">" and c < 0):
                return False
    z = toz(d)
    zero = z3.RealVal(0)
    return SymBool({"<": z < zero, "<=": z <= zero, ">": z > zero, ">=": z >= zero,
                    "==": z == zero, "!=": z != zero}[op])


class SymBool:
    __slots__ = ("z",)
    __array_priority__ = 100
    __array_ufunc__ = None

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return f"SymBool({self.z})"

    def __bool__(self):
        return ctx().decide(self)

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return SymBool(z3.Xor(bz(self), bz(o)))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(bz(self) == bz(o))
        return self.as_poly() == o

    def __ne__(self, o):
        return b_not(self == o)

    def __hash__(self):
        return hash(self.z)

    def as_poly(self):
        c = ctx()
        z = z3.simplify(self.z)
        if z3.is_true(z):
            return Poly.const(1)
        if z3.is_false(z):
            return Poly.const(0)
        if not c.ind_busy and not any(c.gen_depth.values()):
            c.ind_busy = True
            try:
                if c.prove_quick(self, 150):
                    return Poly.const(1)
                if c.prove_quick(b_not(self), 150):
                    return Poly.const(0)
            finally:
                c.ind_busy = False
        a = c.atom(("ind", z.get_id()), "ind", deps=c.z_deps(z))
        if a.axioms is None:
            a.info = z
            a.nonneg = True
            a.axioms = lambda: [a.z == z3.If(z, z3.RealVal(1), z3.RealVal(0))]
            c.rules[(a.id, a.id)] = Poly.atom(a)
        return Poly.atom(a)

    def _ar(self, op, o):
        return getattr(self.as_poly(), op)(o)

    def __add__(self, o): return self.as_poly() + o
    def __radd__(self, o): return self.as_poly() + o
    def __sub__(self, o): return self.as_poly() - o
    def __rsub__(self, o): return (-self.as_poly()) + o
    def __mul__(self, o): return self.as_poly() * o
    def __rmul__(self, o): return self.as_poly() * o
    def __lt__(self, o): return self.as_poly() < o
    def __le__(self, o): return self.as_poly() <= o
    def __gt__(self, o): return self.as_poly() > o
    def __ge__(self, o): return self.as_poly() >= o

    def __deepcopy__(self, memo):
        return self


def bz(x):
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, Poly):
        return bz(x != 0)
    if isinstance(x, Poison):
        raise PoisonUse(x.why)
    return z3.BoolVal(bool(x))


def mkb(z):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, (SymBool, Poly)):
            out.append(bz(x))
        elif not x:
            return False
    if not out:
        return True
    return SymBool(z3.And(*out) if len(out) > 1 else out[0])


def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (SymBool, Poly)):
            out.append(bz(x))
        elif x:
            return True
    if not out:
        return False
    return SymBool(z3.Or(*out) if len(out) > 1 else out[0])


def b_not(x):
    if isinstance(x, (SymBool, Poly)):
        z = bz(x)
        if z3.is_not(z):
            return SymBool(z.arg(0))
        return SymBool(z3.Not(z))
    return not x


def b_implies(a, b):
    return b_or(b_not(a), b)


# ---------------------------------------------------------------- scalar functions

def fresh(name, is_int=False, deps=frozenset(), nonneg=False, pos=False):
    a = ctx().new_atom(name, "var", (), is_int, deps)
    a.nonneg = nonneg or pos
    a.pos = pos
    if pos:
        a.axioms = lambda: [a.z > 0]
    elif nonneg:
        a.axioms = lambda: [a.z >= 0]
    return Poly.atom(a)


def pi():
    a = ctx().atom(("PI",), "pi")
    if a.axioms is None:
        a.pos = a.nonneg = True
        a.axioms = lambda: [a.z > z3.RealVal("3.14159265358"), a.z < z3.RealVal("3.14159265359")]
    return Poly.atom(a)


def _primitive(p):
    """p = c * q with leading coefficient of q equal 1; returns (c, q)."""
    m = min(p.t)
    c = p.t[m]
    return c, Poly({k: v / c for k, v in p.t.items()})


def sdiv(a, b):
    a, b = P(a), P(b)
    if b.is_const():
        v = b.const_value()
        if v == 0:
            return Poison("division by zero")
        return normal(Poly({m: c / v for m, c in a.t.items()}))
    b = renorm(b)
    if b.is_const():
        return sdiv(a, b)
    # b must be nonzero
    c = ctx()
    nz = cmp0(b, "!=")
    if nz is not True:
        nz = nz if isinstance(nz, SymBool) else SymBool(z3.BoolVal(nz))
        if c.lenient:
            pass
        elif c.in_spec:
            if not c.prove_quick(nz):
                raise Unsupported("specification divides by a possibly zero value")
        elif not c.decide(nz):
            return Poison("division by zero")
    return normal(pmul(a, P(inv(b))))


def inv(b):
    c = ctx()
    # exact multiples
    if len(b.t) == 1:
        (m, k), = b.t.items()
        out = Poly.const(1 / k)
        for aid, e in m:
            at = c.atoms_by_id[aid]
            if at.kind == "inv1":
                # 1/(1/x) = x  (x nonzero as the inverse was formed)
                q = Poly.atom(c.atoms_by_id[at.args])
            elif at.kind == "invp" and len(at.info.t) <= 2 and min(at.info.t.values()) > 0:
                q = at.info
            else:
                ia = c.atom(("inv1", aid), "inv_" + at.name, deps=at.deps)
                if ia.axioms is None:
                    ia.args = aid
                    ia.kind = "inv1"
                    ia.nonneg, ia.pos = at.nonneg, at.pos

                    def ax(ia=ia, at=at):
                        return [z3.Implies(at.z != 0, at.z * ia.z == 1),
                                z3.Implies(at.z > 0, ia.z > 0), z3.Implies(at.z < 0, ia.z < 0)]
                    ia.axioms = ax
                if not c.lenient:
                    c.rules[(min(aid, ia.id), max(aid, ia.id))] = Poly.const(1)
                    sq = c.rules.get((aid, aid))
                    if sq is not None and 2 <= len(sq.t) <= 30:
                        # a^2 = k L + rest (L the leading monomial), hence L/a = (a - rest/a)/k
                        lead = max(sq.t, key=lambda m: (sum(e for _, e in m), m))
                        k = sq.t[lead]
                        if all(x != aid and x != ia.id for m in sq.t for x, _ in m):
                            r = {((aid, 1),): Fraction(1) / k}
                            for m, v in sq.t.items():
                                if m != lead:
                                    r[mono_mul(m, ((ia.id, 1),))] = -Fraction(v) / k
                            c.inv_rules[ia.id] = (lead, Poly(r))
                q = Poly.atom(ia)
            for _ in range(e):
                out = pmul(out, q)
        return out
    k, q = _primitive(b)
    # polynomials are inverted through an abbreviation so that products cancel
    ia = c.atom(("invp", q.key()), "invp", deps=q.deps())
    if ia.axioms is None:
        ia.info = q

        def ax(ia=ia, q=q):
            z = toz(q)
            return [z3.Implies(z != 0, z * ia.z == 1),
                    z3.Implies(z > 0, ia.z > 0), z3.Implies(z < 0, ia.z < 0)]
        ia.axioms = ax
    return pmul(Poly.const(1 / k), Poly.atom(ia))


def _isqrt_frac(f):
    n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if n * n == f.numerator and d * d == f.denominator:
        return Fraction(n, d)
    return None


def _square_root(p):
    """polynomial r with r^2 = p (up to sign), or None"""
    if not 3 <= len(p.t) <= 28:
        return None
    sq = []
    for m, k in p.t.items():
        if all(e % 2 == 0 for _, e in m):
            r = _isqrt_frac(k) if k > 0 else None
            if r is not None:
                sq.append((tuple((a, e // 2) for a, e in m), r))
    if len(sq) < 2 or len(sq) * (len(sq) + 1) // 2 < len(p.t):
        return None
    m0, r0 = sq[0]
    out = {m0: r0}
    for m, r in sq[1:]:
        k = p.t.get(mono_mul(m0, m), 0)
        out[m] = r if k >= 0 else -r
    q = Poly(out)
    return q if pmul(q, q).t == p.t else None


def ssqrt(x, known=False, vnorm=False):
    if isinstance(x, Poison):
        return x
    p = renorm(P(x))
    c = ctx()
    guarded = False
    if p.is_const():
        v = p.const_value()
        if v < 0:
            return Poison("sqrt of negative")
        r = _isqrt_frac(v)
        if r is not None:
            return normal(Poly.const(r))
    elif len(p.t) == 1:
        (m, k), = p.t.items()
        r = _isqrt_frac(k) if k > 0 else None
        if r is not None and all(e % 2 == 0 for _, e in m):
            out = Poly.const(r)
            for aid, e in m:
                at = Poly.atom(c.atoms_by_id[aid])
                f = at if c.atoms_by_id[aid].nonneg else P(sabs(at))
                for _ in range(e // 2):
                    out = pmul(out, f)
            return normal(out)
    if not p.is_const():
        nn = cmp0(p, ">=")
        if nn is not True and not known and not is_sos(p):
            nn = nn if isinstance(nn, SymBool) else SymBool(z3.BoolVal(nn))
            if c.lenient:
                guarded = True
            elif c.in_spec:
                if not c.prove_quick(nn):
                    raise Unsupported("specification takes the root of a possibly negative value")
            elif not c.decide(nn):
                return Poison("sqrt of negative")
        q = _square_root(p) if not c.lenient else None
        if q is not None:
            if c.prove_quick(q >= 0):
                return normal(q)
            if c.prove_quick(q <= 0):
                return normal(-q)
            return sabs(q)
        if getattr(c, "strong_forms", False) and not c.lenient and len(p.t) > 1:
            # sqrt(a^2 q) is a sqrt(q) for a > 0
            common = set.intersection(*[{a for a, e in m if e >= 2} for m in p.t])
            for a in sorted(common):
                at = Poly.atom(c.atoms_by_id[a])
                if c.prove_quick(at > 0):
                    q = Poly({tuple((b, e - 2 if b == a else e) for b, e in m if b != a or e > 2): k for m, k in p.t.items()})
                    return pmul(at, P(ssqrt(q, known=True, vnorm=vnorm)))
        # sqrt(1 - cos(x)^2) is |sin(x)|
        if len(p.t) == 2 and p.t.get((), 0) == 1:
            (m, k), = [(m, k) for m, k in p.t.items() if m]
            if k == -1 and len(m) == 1 and m[0][1] == 2 and c.atoms_by_id[m[0][0]].kind == "cos":
                si = c.atoms.get(("sin", c.atoms_by_id[m[0][0]].info.key()))
                if si is not None:
                    q = Poly.atom(si)
                    if not c.lenient:
                        if c.prove_quick(q >= 0):
                            return q
                        if c.prove_quick(q <= 0):
                            return -q
                    return sabs(q)
        # is it (provably) a square of something simple?
        if not guarded and any(c.atoms_by_id[a].kind in ("inv1", "invp") for m in p.t for a, _ in m):
            if c.prove_quick(p == 1):
                return 1
    s = c.atom(("sqrt", p.key()), "sqrt", deps=p.deps())
    if s.axioms is None:
        s.nonneg = True
        s.info = p
        z = toz(p)
        s.axioms = lambda: [s.z >= 0, z3.Implies(z >= 0, s.z * s.z == z)]
        c.guarded.append(("sqrt", p.key()))
    if vnorm and not s.vnorm:
        s.vnorm = True
        c.vnorms.append(s)
    if not guarded:
        c.rules[(s.id, s.id)] = p
    return Poly.atom(s)


def is_sos(p):
    for m, k in p.t.items():
        if k < 0:
            return False
        for a, e in m:
            if e % 2 and not ctx().atoms_by_id[a].nonneg:
                return False
    return True


def sabs(x):
    if isinstance(x, Poison):
        return x
    if is_num(x):
        return abs(x)
    p = P(x)
    if p.is_const():
        return normal(Poly.const(abs(p.const_value())))
    c = ctx()
    if is_sos(p):
        return normal(p)
    if is_sos(-p):
        return normal(-p)
    k, q = _primitive(p)
    one = _one_atom(q)
    if one and one[0].kind == "sin" and not c.lenient:       # sign of a sine: from the range of its angle
        sgn = 1 if c.prove_quick(q >= 0) else -1 if c.prove_quick(q <= 0) else 0
        if sgn:
            return normal(Poly.const(abs(k)) * q * sgn)
    if (getattr(c, "strong_forms", False) or len(q.t) == 1 and len(next(iter(q.t))) > 1) and not c.lenient and ("abs", q.key()) not in c.atoms:      # a product: its sign may be known here
        sgn = 1 if c.prove_quick(q >= 0) else -1 if c.prove_quick(q <= 0) else 0
        if sgn:
            return normal(Poly.const(abs(k)) * q * sgn)
    a = c.atom(("abs", q.key()), "abs", deps=q.deps())
    if a.axioms is None:
        a.nonneg = True
        a.info = q
        z = toz(q)
        a.axioms = lambda: [a.z == z3.If(z >= 0, z, -z)]
        c.rules[(a.id, a.id)] = pmul(q, q)
    return normal(Poly.const(abs(k)) * Poly.atom(a)) if abs(k) != 1 else Poly.atom(a)


def ite(cond, a, b):
    """Scalar if-then-else."""
    if not isinstance(cond, SymBool):
        return a if cond else b
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return mkb(z3.simplify(z3.If(cond.z, bz(a), bz(b))))
    if isinstance(a, Poison) or isinstance(b, Poison):
        if isinstance(a, Poison) and isinstance(b, Poison):
            return a
        return GuardedPoison(cond, a, b)
    if a is b:
        return a
    pa, pb = P(a), P(b)
    if pa.t == pb.t:
        return normal(pa)
    c = ctx()
    if is_num(a) and is_num(b):
        # a*[c] + b*(1-[c])
        return cond.as_poly() * (Fraction(_num(a)) - _num(b)) + _num(b)
    z = z3.simplify(cond.z)
    if z3.is_true(z):
        return a
    if z3.is_false(z):
        return b
    at = c.atom(("ite", z.get_id(), pa.key(), pb.key()), "ite",
                deps=c.z_deps(z) | pa.deps() | pb.deps())
    if at.axioms is None:
        at.info = (z, pa, pb)
        za, zb = toz(pa), toz(pb)
        at.axioms = lambda: [at.z == z3.If(z, za, zb)]
        if is_sos(pa) and is_sos(pb):
            at.nonneg = True
    return Poly.atom(at)


class GuardedPoison(Poison):
    def __init__(self, cond, a, b):
        super().__init__("guarded")
        self.cond, self.a, self.b = cond, a, b


def _provable_order(pa, pb):
    """+1 if pa >= pb is certain, -1 if pa <= pb is certain (only tried against constants)"""
    c = ctx()
    if c.lenient or not (pa.is_const() or pb.is_const()):
        return 0
    q = pb if pa.is_const() else pa
    if not any(a.kind in ("gram", "min", "max") for a in q.atoms()) and (
            len(q.t) > 2 or len(q.atoms()) != 1 or q.atoms()[0].kind == "inv1"):
        return 0
    for sg, b in ((1, pa >= pb), (-1, pa <= pb)):
        if b is True or (b is not False and c.prove_quick(b, 500)):
            return sg
    return 0


def smax(a, b):
    if isinstance(a, Poison):
        return a
    if isinstance(b, Poison):
        return b
    if isinstance(a, float) and math.isinf(a):
        return a if a > 0 else b
    if isinstance(b, float) and math.isinf(b):
        return b if b > 0 else a
    if is_num(a) and is_num(b):
        return max(a, b)
    pa, pb = P(a), P(b)
    if pa.t == pb.t:
        return a
    o = _provable_order(pa, pb)
    if o:
        return a if o > 0 else b
    c = ctx()
    k = frozenset([pa.key(), pb.key()])
    at = c.atom(("max", k), "max", deps=pa.deps() | pb.deps())
    if at.axioms is None:
        za, zb = toz(pa), toz(pb)
        at.info = (pa, pb)
        at.axioms = lambda: [at.z == z3.If(za >= zb, za, zb)]
        at.nonneg = is_sos(pa) or is_sos(pb)
    return Poly.atom(at)


def smin(a, b):
    if isinstance(a, Poison):
        return a
    if isinstance(b, Poison):
        return b
    if isinstance(a, float) and math.isinf(a):
        return b if a > 0 else a
    if isinstance(b, float) and math.isinf(b):
        return a if b > 0 else b
    if is_num(a) and is_num(b):
        return min(a, b)
    pa, pb = P(a), P(b)
    if pa.t == pb.t:
        return a
    o = _provable_order(pa, pb)
    if o:
        return b if o > 0 else a
    c = ctx()
    k = frozenset([pa.key(), pb.key()])
    at = c.atom(("min", k), "min", deps=pa.deps() | pb.deps())
    if at.axioms is None:
        za, zb = toz(pa), toz(pb)
        at.info = (pa, pb)
        at.axioms = lambda: [at.z == z3.If(za <= zb, za, zb)]
        at.nonneg = is_sos(pa) and is_sos(pb)
    return Poly.atom(at)


def ssign(a):
    return ite(a > 0, 1, ite(a < 0, -1, 0))


# ---- trigonometry

def _cpl(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def _angle_unit(m, coef):
    """cos and sin of |coef| * monomial m (coef > 0)."""
    c = ctx()
    unit = c.trig_units.get(m)
    if unit is None:
        c.trig_units[m] = unit = coef
    q = coef / unit
    mult = 1
    if q.denominator == 1 and q <= 6:
        mult = int(q)
    else:
        unit = coef
    known = c.trig_known.get((m, unit))
    if known is None:
        p = Poly({m: unit})
        ca = c.atom(("cos", p.key()), "cos", deps=p.deps())
        sa = c.atom(("sin", p.key()), "sin", deps=p.deps())
        if ca.axioms is None:
            z = toz(p)
            piz = toz(pi())

            def ax():
                return [ca.z * ca.z + sa.z * sa.z == 1, ca.z <= 1, ca.z >= -1, sa.z <= 1, sa.z >= -1,
                        z3.Implies(z3.And(z > 0, z < piz), sa.z > 0),
                        z3.Implies(z3.And(z < 0, z > -piz), sa.z < 0),
                        z3.Implies(z3.And(z < piz / 2, z > -piz / 2), ca.z > 0),
                        z3.Implies(z3.And(z > piz / 2, z < 3 * piz / 2), ca.z < 0),
                        z3.Implies(z == 0, z3.And(ca.z == 1, sa.z == 0)),
                        z3.Implies(z == piz, z3.And(ca.z == -1, sa.z == 0)),
                        z3.Implies(z == -piz, z3.And(ca.z == -1, sa.z == 0)),
                        z3.Implies(z == piz / 2, z3.And(ca.z == 0, sa.z == 1)),
                        z3.Implies(z == -piz / 2, z3.And(ca.z == 0, sa.z == -1))]
            ca.axioms = ax
            sa.axioms = ax
            ca.info = sa.info = p
            if len(m) == 1 and m[0] == (pi().single_atom().id, 1) and 0 < unit < 1:
                sa.pos = sa.nonneg = True
                ca.pos = ca.nonneg = unit < Fraction(1, 2)
            c.rules[(sa.id, sa.id)] = padd(Poly.const(1), -pmul(Poly.atom(ca), Poly.atom(ca)))
        known = (Poly.atom(ca), Poly.atom(sa))
        c.trig_known[(m, unit)] = known
    out = known
    for _ in range(mult - 1):
        out = _cpl(out, known)
    return out


def trig(x):
    """(cos x, sin x)"""
    p = P(x)
    c = ctx()
    quarter = Fraction(0)
    res = (1, 0)
    pim = ((pi().single_atom().id, 1),)
    const = all(m == pim or not m for m in p.t)
    for m, k in sorted(p.t.items()):
        if m == pim:
            q = (2 * k) // 1
            quarter += q
            k = k - Fraction(q) / 2
            if not k:
                continue
        if m == pim and k == Fraction(1, 4):
            u = (ssqrt(Fraction(1, 2)),) * 2
        else:
            u = _angle_unit(m, abs(k))
        if k < 0:
            u = (u[0], -u[1] if not is_num(u[1]) else -u[1])
        res = _cpl(res, u)
    for _ in range(int(quarter) % 4):
        res = (-res[1], res[0])
    if const and 0 < sum(float(k) * (math.pi if m else 1) for m, k in p.t.items()) < math.pi:
        c.const_angles[p.key()] = (p, P(res[0]))
        q = P(pi() - p)
        c.const_angles[q.key()] = (q, P(-res[0]))
    return res


def scos(x):
    if isinstance(x, Poison):
        return x
    return trig(x)[0]


def ssin(x):
    if isinstance(x, Poison):
        return x
    return trig(x)[1]


def stan(x):
    c, s = trig(x)
    return s / c if isinstance(s, Poly) or isinstance(c, Poly) else Fraction(s) / c


def sarccos(x):
    if isinstance(x, Poison):
        return x
    p = renorm(P(x))
    c = ctx()
    if p.is_const():
        v = p.const_value()
        if v == 1:
            return 0
        if v == -1:
            return pi()
        if v == 0:
            return pi() / 2
        if abs(v) > 1:
            return Poison("arccos domain")
    else:
        ok = b_and(p <= 1, p >= -1)
        if ok is not True and p.key() in c.dots:
            from .vec import Vec        # Cauchy-Schwarz for an inner product of linear combinations
            a, b, dim = c.dots[p.key()]
            na, nb = Vec(dim, a), Vec(dim, b)
            c.assume(P(pmul(p, p)) <= P(pmul(P(na.dot(na)), P(nb.dot(nb)))))
        if ok is not True:
            if c.lenient:
                raise Unsupported("re-instantiation of arccos")
            elif c.in_spec:
                if not c.prove_quick(ok):
                    raise Unsupported("specification takes arccos outside its domain")
            elif not c.decide(ok):
                return Poison("arccos domain")
    for q, cq in c.const_angles.values():
        if cq.t == p.t:
            return normal(q)
    at = p.single_atom() if isinstance(p, Poly) else None
    if at is not None and at.kind == "cos" and not c.lenient:
        x = at.info
        if c.prove_quick(b_and(x >= 0, x <= pi())):
            return normal(x)
    a = c.atom(("arccos", p.key()), "acos", deps=p.deps())
    if a.axioms is None:
        a.nonneg = True
        a.info = p
        z = toz(p)
        piz = toz(pi())
        one_m = normal(padd(Poly.const(1), -pmul(p, p)))
        sn = ssqrt(one_m, known=True)
        c.trig_known[(((a.id, 1),), Fraction(1))] = (normal(p), sn)
        c.trig_units[((a.id, 1),)] = Fraction(1)
        a.axioms = lambda: [a.z >= 0, a.z <= piz, (a.z == 0) == (z == 1), (a.z == piz) == (z == -1),
                            z3.Implies(z > 0, a.z < piz / 2), z3.Implies(z < 0, a.z > piz / 2),
                            z3.Implies(z == 0, a.z == piz / 2)]
        c.guarded.append(("arccos", p.key()))
        c.mono_fns.append(("dec", a, p))
    return Poly.atom(a)


def sarcsin(x):
    if isinstance(x, Poison):
        return x
    p = renorm(P(x))
    c = ctx()
    if p.is_const():
        v = p.const_value()
        if v == 0:
            return 0
        if v == 1:
            return pi() / 2
        if v == -1:
            return -pi() / 2
        if abs(v) > 1:
            return Poison("arcsin domain")
    else:
        ok = b_and(p <= 1, p >= -1)
        if ok is not True:
            if c.lenient:
                raise Unsupported("re-instantiation of arcsin")
            elif c.in_spec:
                if not c.prove_quick(ok):
                    raise Unsupported("specification takes arcsin outside its domain")
            elif not c.decide(ok):
                return Poison("arcsin domain")
    a = c.atom(("arcsin", p.key()), "asin", deps=p.deps())
    if a.axioms is None:
        a.info = p
        z = toz(p)
        piz = toz(pi())
        cs = ssqrt(normal(padd(Poly.const(1), -pmul(p, p))), known=True)
        c.trig_known[(((a.id, 1),), Fraction(1))] = (cs, normal(p))
        c.trig_units[((a.id, 1),)] = Fraction(1)
        a.axioms = lambda: [a.z >= -piz / 2, a.z <= piz / 2, (a.z == 0) == (z == 0), (a.z > 0) == (z > 0)]
        c.guarded.append(("arcsin", p.key()))
        c.mono_fns.append(("inc", a, p))
    return Poly.atom(a)


def _one_atom(p):
    """(atom, sign) of a polynomial +-atom"""
    if len(p.t) != 1:
        return None
    (m, k), = p.t.items()
    return (ctx().atoms_by_id[m[0][0]], int(k)) if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 else None


def satan2(y, x):
    if isinstance(x, Poison) or isinstance(y, Poison):
        return Poison("atan2 of undefined")
    py, px = renorm(P(y)), renorm(P(x))
    if py.is_const() and px.is_const():
        if py.const_value() == 0:
            return 0 if px.const_value() >= 0 else pi()
        if px.const_value() == 0:
            return pi() / 2 if py.const_value() > 0 else -pi() / 2
    c = ctx()
    for u, v, swap in ((px, py, False), (py, px, True)):
        cu, sv = _one_atom(u), _one_atom(v)
        if cu and sv and cu[0].kind == "cos" and sv[0].kind == "sin" and cu[1] == 1 and cu[0].info.key() == sv[0].info.key():
            ang = cu[0].info * sv[1]
            ang = pi() / 2 - ang if swap else ang
            if all(b is True or (b is not False and c.prove_quick(b)) for b in (P(ang) <= pi(), P(ang) > -pi())):
                return ang
    a = c.atom(("atan2", py.key(), px.key()), "atan2", deps=py.deps() | px.deps())
    if a.axioms is None:
        a.info = (py, px)
        r = ssqrt(normal(padd(pmul(px, px), pmul(py, py))), known=True)
        piz = toz(pi())
        yz, xz = toz(py), toz(px)
        co, si = _angle_unit(((a.id, 1),), Fraction(1))
        rz, cz, sz = toz(r), toz(co), toz(si)
        ra = r.single_atom() if isinstance(r, Poly) else None
        if ra is not None:
            ca, sa = co.single_atom(), si.single_atom()
            c.rules[(min(ra.id, ca.id), max(ra.id, ca.id))] = px
            c.rules[(min(ra.id, sa.id), max(ra.id, sa.id))] = py

        def ax():
            return [a.z > -piz, a.z <= piz, rz * cz == xz, rz * sz == yz,
                    z3.Implies(z3.And(yz == 0, xz >= 0), a.z == 0),
                    z3.Implies(z3.And(yz == 0, xz < 0), a.z == piz),
                    z3.Implies(yz > 0, a.z > 0), z3.Implies(yz < 0, a.z < 0),
                    z3.Implies(z3.And(xz > 0), z3.And(a.z < piz / 2, a.z > -piz / 2))]
        a.axioms = ax
        # link the cos/sin atoms' axioms to the atan2 relation
        for at in (co.single_atom(), si.single_atom()):
            prev = at.axioms
            at.axioms = (lambda prev=prev: prev() + ax())
            at._ax_cache = None
    return Poly.atom(a)


def sarctan(x):
    if is_num(x) and x == 0:
        return 0
    return satan2(x, 1)


def sexp(x):
    if isinstance(x, Poison):
        return x
    p = P(x)
    if p.is_const() and p.const_value() == 0:
        return 1
    c = ctx()
    a = c.atom(("exp", p.key()), "exp", deps=p.deps())
    if a.axioms is None:
        a.info = p
        a.pos = a.nonneg = True
        z = toz(p)
        a.axioms = lambda: [a.z > 0, (a.z == 1) == (z == 0), (a.z < 1) == (z < 0), a.z >= 1 + z]
        c.mono_fns.append(("inc", a, p))
        k = -p
        # exp(-p) * exp(p) = 1
        b = c.atoms.get(("exp", k.key()))
        if b is not None:
            c.rules[(min(a.id, b.id), max(a.id, b.id))] = Poly.const(1)
    return Poly.atom(a)


def slog(x):
    if isinstance(x, Poison):
        return x
    p = P(x)
    c = ctx()
    if p.is_const() and p.const_value() == 1:
        return 0
    at = p.single_atom()
    if at is not None and at.kind == "exp":
        return normal(at.info)
    if not c.in_spec and not c.lenient:
        ok = p > 0
        if ok is not True and not (ok if isinstance(ok, bool) else c.decide(ok)):
            return Poison("log domain")
    a = c.atom(("log", p.key()), "log", deps=p.deps())
    if a.axioms is None:
        a.info = p
        z = toz(p)
        a.axioms = lambda: [(a.z == 0) == (z == 1), (a.z < 0) == (z < 1), a.z <= z - 1]
        c.mono_fns.append(("inc", a, p))
        c.guarded.append(("log", p.key()))
    return Poly.atom(a)


def spow(b, e):
    if isinstance(b, Poison):
        return b
    if isinstance(e, Poison):
        return e
    if is_num(b) and is_num(e):
        fb, fe = _num(b), _num(e)
        if fe.denominator == 1:
            if fb == 0 and fe < 0:
                return Poison("0**negative")
            v = fb ** int(fe)
            return int(v) if Fraction(v).denominator == 1 else v
        if fe == Fraction(1, 2):
            return ssqrt(b)
        b = Poly.const(fb)
    if isinstance(e, Poly) and e.is_const():
        e = e.const_value()
    if is_num(e):
        fe = _num(e)
        if fe.denominator == 1:
            n = int(fe)
            out = Poly.const(1)
            pb = P(b)
            for _ in range(abs(n)):
                out = pmul(out, pb)
            if n < 0:
                return sdiv(1, out)
            return normal(out)
        if fe == Fraction(1, 2):
            return ssqrt(b)
        if fe == Fraction(3, 2):
            return ssqrt(b) * b
    pb, pe = P(b), P(e)
    c = ctx()
    if pb.is_const() and pb.const_value() == 1:
        return 1
    if not c.in_spec and not c.lenient:
        ok = pb >= 0 if not is_sos(pb) else True
        if ok is not True and not (ok if isinstance(ok, bool) else c.decide(ok)):
            return Poison("negative base with real exponent")
        # 0 ** negative
        bad = b_and(pb == 0, pe < 0)
        if bad is not False and c.decide(bad if isinstance(bad, SymBool) else SymBool(z3.BoolVal(bad))):
            return Poison("0**negative")
    a = c.atom(("pow", pb.key(), pe.key()), "pow", deps=pb.deps() | pe.deps())
    if a.axioms is None:
        a.info = (pb, pe)
        a.nonneg = True
        zb, ze = toz(pb), toz(pe)
        c.guarded.append(("pow", pb.key(), pe.key()))

        def ax():
            return [a.z >= 0,
                    z3.Implies(zb > 0, a.z > 0),
                    z3.Implies(z3.And(zb == 0, ze > 0), a.z == 0),
                    z3.Implies(zb == 1, a.z == 1),
                    z3.Implies(ze == 0, a.z == 1),
                    z3.Implies(ze == 1, a.z == zb),
                    z3.Implies(z3.And(zb > 0, zb < 1, ze > 0), a.z < 1),
                    z3.Implies(z3.And(zb > 1, ze > 0), a.z > 1),
                    z3.Implies(z3.And(zb > 0, zb < 1, ze < 0), a.z > 1),
                    z3.Implies(z3.And(zb > 1, ze < 0), a.z < 1),
                    z3.Implies(z3.And(zb > 0, zb <= 1, ze >= 1), a.z <= zb),
                    z3.Implies(z3.And(zb >= 0, zb <= 1, ze <= 1, ze >= 0), a.z >= zb)]
        a.axioms = ax
    return Poly.atom(a)
