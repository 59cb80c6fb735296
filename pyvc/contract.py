"""Contract harnesses: one text, two readings.

A contract is a Python function over a session object S: it declares the inputs (for every value
of them), states the precondition (S.assume), calls the repository's functions and states the
postcondition (S.ensure).  Read by SymS it is executed by the verifier on the AST of the current
source and every S.ensure becomes a proof obligation per path; read by ConS it is executed on the
real code with concrete inputs (counterexample replay and bounded search).
"""
from __future__ import annotations
import copy as _copy
import importlib
import math
from dataclasses import dataclass, field
from fractions import Fraction
import numpy as np

REGISTRY = []


@dataclass
class Contract:
    prop: str
    name: str
    fn: object
    targets: tuple
    mode: str = "proof"          # proof | bounded
    why_bounded: str = ""
    samples: int = 400
    max_paths: int = 300
    timeout_ms: int = 10000
    modular: tuple = ()
    con_seconds: float = 4.0
    strong: bool = False         # squared lengths are nonnegative in every query, not only in failing ones

    @property
    def id(self):
        return f"{self.prop}/{self.name}"


def contract(prop, *targets, mode="proof", why="", name=None, **kw):
    def d(fn):
        REGISTRY.append(Contract(prop, name or fn.__name__, fn, targets, mode, why, **kw))
        return fn
    return d


SUMMARIES = {}


@dataclass
class Summary:
    """A callee's contract: what a caller may assume of the call.  fn(S, **args) returns the specified result (or
    NotImplemented when the callee's precondition is not established: the body is executed instead)."""
    target: str
    fn: object
    proved_by: tuple

    modular = True

    @property
    def name(self):
        return self.target

    def apply(self, I, bound):
        return self.fn(I.S, **bound)


def summary(target, *proved_by):
    """target may end in '#variant': a weaker specification of the same function"""
    def d(fn):
        SUMMARIES[target] = Summary(target.split("#")[0], fn, proved_by)
        return fn
    return d


class Skip(Exception):
    """Concrete inputs do not satisfy the precondition."""


class Violated(Exception):
    def __init__(self, name, detail=""):
        super().__init__(name)
        self.name = name
        self.detail = detail


class Raised:
    """An exception escaping the code under contract."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<raised {self.name}>"


# ---------------------------------------------------------------------------- concrete session
class MockGap(AttributeError):
    """The code under contract used something of a collaborator that its contract does not describe."""


class _Mock:
    _absent = ()

    def __getattr__(self, n):
        if n.startswith("__") or n in type(self)._absent:
            raise AttributeError(n)
        raise MockGap(n)


def _vis(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [_vis(v) for v in x]
    if isinstance(x, (int, float, bool, str)) or x is None:
        return x
    return repr(x)[:120]


class ConS:
    sym = False
    TOL = 1e-6

    def __init__(self, rng, given=None, literals=(), wild=True):
        self.rng = rng
        self.given = given or {}
        self.inputs = {}
        self.lits = list(literals)
        self._vecs = []
        self.checked = 0
        self.wild = wild
        self.pi = math.pi
        self.nontrivial = set()

    # ---- inputs
    def _take(self, name, gen):
        if name in self.inputs:
            n = 2
            while f"{name}#{n}" in self.inputs:
                n += 1
            name = f"{name}#{n}"
        v = self.given[name] if name in self.given else gen()
        self.inputs[name] = _copy.deepcopy(v)
        return v

    def dim(self, name="D", lo=2, hi=5):
        return self._take(name, lambda: int(self.rng.integers(lo, hi + 1)))

    def dval(self, D):
        return D

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        def gen():
            r = self.rng
            a = -10.0 if lo is None else float(lo)
            b = (max(a, 0) + 10.0 if lo is not None else 10.0) if hi is None else float(hi)
            u = r.random()
            x = None
            if u < 0.12 and lo is not None and not lo_open:
                x = a
            elif u < 0.24 and hi is not None and not hi_open:
                x = b
            elif u < 0.40:
                x = float(r.choice([0.0, 1.0, 0.5, 2.0, -1.0, 0.25, 3.0, 10.0]))
            elif u < 0.55 and self.lits:
                x = float(self.lits[r.integers(len(self.lits))]) + float(r.choice([0, 0, 1e-9, -1e-9, 0.01, -0.01]))
            elif u < 0.62:
                x = a + (b - a) * 10.0 ** (-r.integers(1, 5))
            elif u < 0.68:
                x = b - (b - a) * 10.0 ** (-r.integers(1, 5))
            if x is None or not (a <= x <= b) or (lo_open and x == a) or (hi_open and x == b):
                x = a + (b - a) * r.random()
                if lo_open and x == a:
                    x = a + (b - a) * 1e-3
            return float(x)
        return self._take(name, gen)

    def int(self, name, lo=0, hi=5):
        v = self._take(name, lambda: int(self.rng.integers(lo, hi + 1)))
        if not lo <= v <= hi:
            raise Skip()
        return v

    size = int

    def index(self, name, n):
        v = self._take(name, lambda: int(self.rng.integers(0, max(n, 1))))
        if not 0 <= v < n:
            raise Skip()
        return v

    def choice(self, name, options):
        i = self._take(name, lambda: int(self.rng.integers(len(options))))
        return options[i]

    def bool(self, name):
        return self.choice(name, [False, True])

    def _rand_vec(self, D, lo=None):
        r = self.rng
        u = r.random()
        if self.wild and self._vecs and u < 0.22:
            same = [v for v in self._vecs if len(v) == D]
            if same:
                v = same[r.integers(len(same))]
                c = r.integers(6)
                if c == 0:
                    return v.copy()
                if c == 1:
                    return -v * r.uniform(0.1, 3)
                if c == 2:
                    return v * r.uniform(0.1, 3)
                if c == 3:
                    return v + 0.01 * r.normal(size=D)
                if c == 4:
                    w = r.normal(size=D)
                    n2 = v @ v
                    return w - (w @ v) / n2 * v if n2 else w
                return -v
        if u < 0.35:
            v = np.zeros(D)
            v[r.integers(D)] = float(r.choice([1, -1, 2.0, 0.5]))
            return v
        if u < 0.42:
            return np.array(r.integers(-2, 3, size=D), dtype=float)
        return r.normal(size=D) * float(r.choice([0.1, 1, 1, 3]))

    def vec(self, name, D, nonzero=False, max_norm=None):
        def gen():
            for _ in range(50):
                v = self._rand_vec(D)
                if not nonzero and self.wild and self.rng.random() < 0.06:
                    v = np.zeros(D)
                if max_norm is not None and np.linalg.norm(v) > max_norm:
                    v = v / np.linalg.norm(v) * max_norm * self.rng.random()
                if not nonzero or np.linalg.norm(v) > 1e-6:
                    break
            return np.array(v, dtype=float)
        v = np.array(self._take(name, gen), dtype=float)
        self._vecs.append(v)
        return v.copy()

    def unit(self, name, D):
        def gen():
            while True:
                v = self._rand_vec(D)
                n = np.linalg.norm(v)
                if n > 1e-6:
                    return v / n
        v = np.array(self._take(name, gen), dtype=float)
        v = v / np.linalg.norm(v)
        self._vecs.append(v)
        return v.copy()

    def strong_forms(self):
        pass

    def turned(self, name, parent, D=None, same=False):
        from .symsession import Turn
        t = Turn(parent)
        if parent is None:
            t.v = self.unit(name, D)
            return t
        D = len(parent.v)
        if same:
            t.v, t.angle, t.c, t.s = parent.v.copy(), 0.0, 1.0, 0.0
        else:
            t.c = self.real(name + "_cos", -1 + 4.6e-6, 1 - 4.6e-6)
            t.angle, t.s = math.acos(t.c), math.sqrt(1 - t.c * t.c)

        def gen():
            while True:
                x = self._rand_vec(D)
                x = x - parent.v * parent.v.dot(x)
                if np.linalg.norm(x) > 1e-3:
                    return x
        x = np.array(self._take(name + "_perp", gen), dtype=float)
        x = x - parent.v * parent.v.dot(x)
        if np.linalg.norm(x) < 1e-9:
            raise Skip
        t.p = x / np.linalg.norm(x)
        if not same:
            t.v = parent.v * t.c + t.p * t.s
        return t

    def basis(self, name, D):
        def gen():
            q, _ = np.linalg.qr(self.rng.normal(size=(D, 2)))
            if self.rng.random() < 0.3:
                i, j = self.rng.permutation(D)[:2]
                q = np.zeros((D, 2))
                q[i, 0] = q[j, 1] = 1
            return q
        q = np.array(self._take(name, gen), dtype=float)
        self._vecs.append(q[:, 0])
        self._vecs.append(q[:, 1])
        return q.copy()

    def obasis(self, name, D):
        """orthonormal basis of the whole space"""
        def gen():
            if self.rng.random() < 0.3:
                return np.eye(D)[:, self.rng.permutation(D)]
            return np.linalg.qr(self.rng.normal(size=(D, D)))[0]
        q = np.array(self._take(name, gen), dtype=float)
        self._vecs.append(q[:, 0])
        return q.copy()

    def arr(self, name, n, lo=None, hi=None, lo_open=False):
        def gen():
            out = []
            for i in range(n):
                if out and self.rng.random() < 0.12:
                    out.append(out[-1])
                else:
                    s = ConS(self.rng, None, self.lits)
                    out.append(s.real("x", lo, hi, lo_open))
            return np.array(out, dtype=float)
        return np.array(self._take(name, gen), dtype=float).reshape(n).copy()

    def vecs(self, name, n, D, unit=False):
        """D x n array"""
        def gen():
            cols = []
            for i in range(n):
                v = self._rand_vec(D)
                if unit:
                    while np.linalg.norm(v) < 1e-6:
                        v = self.rng.normal(size=D)
                    v = v / np.linalg.norm(v)
                self._vecs.append(v)
                cols.append(v)
            return np.array(cols, dtype=float).T.reshape(D, n)
        return np.array(self._take(name, gen), dtype=float).reshape(D, n).copy()

    def mat(self, name, r, c, lo=-3.0, hi=3.0):
        def gen():
            return np.array([[ConS(self.rng, None, self.lits).real("x", lo, hi) for _ in range(c)] for _ in range(r)])
        return np.array(self._take(name, gen), dtype=float).reshape(r, c).copy()

    def rotmat(self, name, D):
        def gen():
            q, r_ = np.linalg.qr(self.rng.normal(size=(D, D)))
            if self.rng.random() < 0.2:
                q = np.eye(D)[:, self.rng.permutation(D)]
            return q
        return np.array(self._take(name, gen), dtype=float).copy()

    def objects(self, n, f):
        return [f(j) for j in range(n)]

    def mock(self, fields=None, methods=None, cls=None, name="mock", absent=()):
        class M(_Mock):
            pass
        M._absent = tuple(absent)
        if cls is not None:
            base = self.cls(cls)
            M = type(base.__name__, (base,), {})
            M.__abstractmethods__ = frozenset()
        for k, f in (methods or {}).items():
            setattr(M, k, (lambda f: (lambda self_, *a, **kw: f(self_, *a, **kw)))(f))
        o = object.__new__(M)
        for k, v in (fields or {}).items():
            if isinstance(getattr(M, k, None), property):
                setattr(M, k, v)
            else:
                o.__dict__[k] = v
        return o

    # ---- code under contract
    def load(self, full):
        mod, q = full.split(":")
        o = importlib.import_module(mod)
        for p in q.split("."):
            o = getattr(o, p)
        return o

    cls = load

    def isa(self, o, name):
        return any(c.__name__ == name for c in type(o).__mro__)

    def fn(self, full):
        return self.load(full)

    def new(self, full, *a, **k):
        return self.load(full)(*a, **k)

    def raw(self, full, **fields):
        o = object.__new__(self.load(full))
        if hasattr(o, "__dict__"):
            o.__dict__.update(fields)
        else:
            for k, v in fields.items():
                setattr(o, k, v)
        return o

    def m(self, o, meth, *a, **k):
        return getattr(o, meth)(*a, **k)

    def get(self, o, n):
        return getattr(o, n)

    def set(self, o, n, v):
        setattr(o, n, v)

    def catch(self, fn):
        try:
            return fn()
        except (Skip, Violated):
            raise
        except MockGap:
            raise
        except Exception as e:
            return Raised(type(e).__name__)

    def defined(self, fn):
        """result of fn, or Raised("undefined") where a mathematical operation has no real value"""
        return self.catch(fn)

    def copy(self, x):
        return _copy.deepcopy(x)

    # ---- spec operators
    def _scale(self, *xs):
        m = 1.0
        for x in xs:
            x = np.asarray(x, dtype=float)
            if x.size:
                m = max(m, float(np.max(np.abs(x))))
        return m

    def eq(self, a, b, tol=None):
        if a is None or b is None:
            return a is b
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape and a.size != 1 and b.size != 1:
            return False
        if np.any(np.isnan(a)) or np.any(np.isnan(b)):
            return False
        if np.any(np.isinf(a)) or np.any(np.isinf(b)):
            return bool(np.all(a == b))
        t = self.TOL if tol is None else tol
        return bool(np.all(np.abs(a - b) <= t * self._scale(a, b)))

    def near(self, a, b, tol):
        """|a - b| <= tol (exactly this slack, in both readings)"""
        return self.eq(a, b, max(float(tol), self.TOL))

    def le(self, a, b):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if math.isinf(a) or math.isinf(b):
            return a <= b
        return a <= b + self.TOL * max(1.0, abs(a), abs(b))

    def ge(self, a, b):
        return self.le(b, a)

    lt = le
    gt = ge

    def within(self, lo, x, hi):
        return self.le(lo, x) and self.le(x, hi)

    def finite(self, x):
        return bool(np.all(np.isfinite(np.asarray(x, dtype=float))))

    def norm(self, v):
        return float(np.linalg.norm(np.asarray(v, dtype=float)))

    def dot(self, a, b):
        return float(np.dot(a, b))

    def col(self, m, i):
        return np.asarray(m)[:, i]

    def matvec(self, m, v):
        return np.asarray(m) @ v

    def zero(self, D):
        return np.zeros(D)

    def stack(self, vs):
        return np.array(vs, dtype=float).T

    def array(self, xs):
        return np.array(xs)

    def sqrt(self, x): return math.sqrt(x) if x >= 0 else math.nan
    def cos(self, x): return math.cos(x)
    def sin(self, x): return math.sin(x)
    def exp(self, x): return math.exp(x)
    def abs(self, x): return abs(x)
    def min(self, *x): return min(x)
    def max(self, *x): return max(x)
    def atan2(self, y, x): return math.atan2(y, x)
    def arccos(self, x): return math.acos(min(1, max(-1, x)))

    def ite(self, c, a, b):
        return a if c else b

    def And(self, *x): return all(bool(v) for v in x)
    def Or(self, *x): return any(bool(v) for v in x)
    def Not(self, x): return not x
    def Implies(self, a, b): return (not a) or bool(b)
    def Iff(self, a, b): return bool(a) == bool(b)

    def len(self, a):
        return len(a)

    def at(self, a, j):
        return a[j]

    def vat(self, m, j):
        return np.asarray(m)[:, j]

    def forall(self, n, f):
        return all(bool(f(j)) for j in range(int(n)))

    def exists(self, n, f):
        return any(bool(f(j)) for j in range(int(n)))

    def sum(self, a):
        return float(np.sum(a)) if len(a) else 0.0

    def sumf(self, n, f):
        return float(sum(float(f(j)) for j in range(int(n))))

    def amin(self, a):
        return float(np.min(a))

    def amax(self, a):
        return float(np.max(a))

    def true(self, c):
        return bool(c)

    def isnone(self, x):
        return x is None

    def assume(self, c):
        if not c:
            raise Skip()

    def ensure(self, name, c, tol=None):
        self.checked += 1
        self.nontrivial.add(name)
        if not bool(c):
            raise Violated(name)

    def lemma_cauchy(self, a, b):
        pass

    def lemma_cos(self, theta):
        pass

    def lemma_triangle(self, v):
        pass

    def note(self, *_):
        pass

    def raised(self, r, *names):
        return isinstance(r, Raised) and (not names or r.name in names)
