"""Path context: atoms, path condition, decisions, quantifier instantiation and the prover."""
from __future__ import annotations
import time
import os
import z3
from fractions import Fraction
from . import sym
from .sym import (Poly, Atom, SymBool, Unsupported, PathAbort, P, toz, bz, mkb, b_and, b_not, normal)

STATS = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0, "cache": 0}
_CACHE = {}
_KEEP = []


class Quant:
    """A fact that holds for every index 0 <= j < n: inst(j) -> list of z3 facts."""

    def __init__(self, n, inst):
        self.n = n
        self.inst = inst
        self.cache = {}

    def at(self, j):
        k = P(j).key()
        if k not in self.cache:
            self.cache[k] = self.inst(j)
        return self.cache[k]


class Explorer:
    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.new = []


class Ctx:
    def __init__(self, max_decisions=400):
        self.atoms = {}
        self.atoms_by_id = {}
        self.by_zname = {}
        self.rules = {}
        self.inv_rules = {}
        self.trig_units = {}
        self.norm_vecs = {}
        self.const_angles = {}
        self.trig_known = {}
        self.dots = {}
        self.vnorms = []          # roots of squared lengths
        self.strong = False
        self.mono_fns = []
        self.guarded = []
        self.pc = []
        self.quants = []          # list of Quant (assumed universal facts)
        self.whole = []           # sign facts about sums (hold on the whole path)
        self.idx_terms = []       # list of (Poly, n-Poly key)
        self.explorers = []
        self.in_spec = False
        self.recording = None
        self.lenient = False
        self.gen_depth = {}
        self.ind_busy = False
        self.gen_idx = {}
        self._pz = {}
        self._next = 0
        self._names = {}
        self._zdeps = {}
        self.max_decisions = max_decisions
        self.assumed = set()      # assumed external contracts used
        self.used_funcs = set()   # repository functions interpreted
        self.used_contracts = set()
        self.pre_obligs = []      # call-site preconditions
        self.notes = set()
        self.vecinfo = None
        self.gram_used = {}
        self.inputs = {}
        self.steps = 0
        self.deadline = None

    # ------------------------------------------------ atoms
    def new_atom(self, name, kind, args, is_int=False, deps=frozenset()):
        n = self._names.get(name, 0)
        self._names[name] = n + 1
        nm = name if n == 0 else f"{name}!{n}"
        self._next += 1
        z = z3.Int(nm) if is_int else z3.Real(nm)
        a = Atom(self._next, nm, kind, args, z, is_int, deps)
        self.atoms_by_id[a.id] = a
        self.by_zname[nm] = a
        return a

    def atom(self, key, name, is_int=False, deps=frozenset()):
        a = self.atoms.get(key)
        if a is None:
            a = self.new_atom(name, key[0], key[1:], is_int, deps)
            self.atoms[key] = a
        return a

    def zval(self, a):
        return z3.ToReal(a.z) if a.is_int else a.z

    def poly_z3(self, p):
        k = p.key()
        z = self._pz.get(k)
        if z is None:
            terms = []
            for m, c in sorted(p.t.items()):
                f = []
                if c != 1 or not m:
                    f.append(z3.RealVal(c))
                conds = []
                for aid, e in m:
                    at = self.atoms_by_id[aid]
                    if at.kind == "ind":
                        conds.append(at.info)
                        continue
                    v = self.zval(at)
                    f.extend([v] * e)
                t = f[0] if f else z3.RealVal(1)
                for x in f[1:]:
                    t = t * x
                if conds:
                    t = z3.If(z3.And(*conds) if len(conds) > 1 else conds[0], t, z3.RealVal(0))
                terms.append(t)
            z = terms[0] if terms else z3.RealVal(0)
            for t in terms[1:]:
                z = z + t
            self._pz[k] = z
        return z

    def z_consts(self, z):
        """names of constants appearing in z"""
        out = set()
        seen = set()
        st = [z]
        while st:
            e = st.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(e.decl().name())
            else:
                st.extend(e.children())
        return out

    def z_deps(self, z):
        d = frozenset()
        for n in self.z_consts(z):
            a = self.by_zname.get(n)
            if a is not None:
                d |= a.deps
        return d

    # ------------------------------------------------ frames
    def push(self):
        return (len(self.pc), len(self.guarded), len(self.quants), len(self.mono_fns))

    def pop(self, mark):
        del self.pc[mark[0]:]
        for k in self.guarded[mark[1]:]:
            self.atoms.pop(k, None)
        del self.guarded[mark[1]:]
        del self.quants[mark[2]:]

    def assume(self, b):
        if b is True:
            return
        if b is False:
            raise PathAbort("assumed false")
        z = bz(b)
        self.pc.append(z)

    def assume_forall(self, n, fn):
        """fn(j) -> SymBool for 0<=j<n"""
        def inst(j):
            old = self.in_spec
            self.in_spec = True
            try:
                b = fn(j)
            finally:
                self.in_spec = old
            if b is True:
                return []
            rng = b_and(P(j) >= 0, P(j) < P(n))
            return [z3.Implies(bz(rng), bz(b))]
        self.quants.append(Quant(P(n), inst))

    def new_index(self, name, n):
        """A fresh (skolem) index with 0 <= j < n assumed by the caller through pc."""
        a = self.new_atom(name, "idx", (), True, frozenset())
        p = Poly.atom(a)
        self.idx_terms.append((p, P(n)))
        return p

    def new_generic_index(self, n):
        a = self.new_atom("k", "idx", (), True, frozenset())
        a.deps = frozenset([a.id])
        p = Poly.atom(a)
        self.idx_terms.append((p, P(n)))
        return p

    # ------------------------------------------------ queries
    def closure(self, zs, rounds=3):
        out = []
        seen_atoms = set()
        seen_z = set()
        work = list(zs)
        done_q = set()

        def scan():
            qs = []
            while work:
                e = work.pop()
                for n in self.z_consts(e):
                    a = self.by_zname.get(n)
                    if a is None or a.id in seen_atoms:
                        continue
                    seen_atoms.add(a.id)
                    if a.axioms is not None:
                        if a._ax_cache is None:
                            a._ax_cache = a.axioms()
                        for ax in a._ax_cache:
                            if ax.get_id() not in seen_z:
                                seen_z.add(ax.get_id())
                                out.append(ax)
                                work.append(ax)
            return qs
        # quantified facts are instantiated on all index terms
        scan()
        for _ in range(rounds):
            new = False
            idx = [(j, n) for (j, n) in self.idx_terms]
            qs = list(self.quants) + list(self.whole)
            for aid in list(seen_atoms):
                a = self.atoms_by_id[aid]
                if a.info is not None and isinstance(a.info, Quant):
                    qs.append(a.info)
            for q in qs:
                for j, n in idx:
                    if n.t != q.n.t:
                        continue
                    ja = j.single_atom()
                    if ja is not None and ja.kind == "idx" and ja.id not in seen_atoms and ja.deps:
                        continue  # generic index not part of this query
                    key = (id(q), j.key())
                    if key in done_q:
                        continue
                    done_q.add(key)
                    new = True
                    for ax in q.at(j):
                        if ax.get_id() not in seen_z:
                            seen_z.add(ax.get_id())
                            out.append(ax)
                            work.append(ax)
            scan()
            if not new:
                break
        mono = self.mono_axioms(seen_atoms)
        out.extend(mono)
        work.extend(mono)
        scan()
        out.extend(self.gram_axioms(seen_atoms))
        for a in seen_atoms:
            at = self.atoms_by_id[a]
            if at.pos and at.axioms is None:
                out.append(self.zval(at) > 0)
            elif at.nonneg and at.axioms is None:
                out.append(self.zval(at) >= 0)
            if self.strong and at.vnorm:
                out.append(toz(at.info) >= 0)       # a squared length
        return out

    def mono_axioms(self, seen):
        """Monotonicity between applications of the same monotone function."""
        out = []
        byk = {}
        for d, a, p in self.mono_fns:
            if a.id in seen:
                byk.setdefault((a.kind, d), []).append((a, p))
        for (k, d), lst in byk.items():
            if k == "arccos":
                for a, p in lst:
                    for q, cq in self.const_angles.values():
                        out.append((a.z <= toz(q)) == (toz(p) >= toz(cq)))
                        out.append((a.z < toz(q)) == (toz(p) > toz(cq)))
            if len(lst) > 6:
                continue
            for i in range(len(lst)):
                for j in range(i + 1, len(lst)):
                    a, p = lst[i]
                    b, q = lst[j]
                    zp, zq = toz(p), toz(q)
                    if d == "inc":
                        out.append((a.z <= b.z) == (zp <= zq))
                        out.append((a.z >= b.z) == (zp >= zq))
                    else:
                        out.append((a.z <= b.z) == (zp >= zq))
                        out.append((a.z >= b.z) == (zp <= zq))
        return out

    def gram_axioms(self, seen):
        out = []
        for aid in seen:
            a = self.atoms_by_id[aid]
            if a.kind == "gram":
                va, vb = a.info
                na, nb = va.n2z(), vb.n2z()
                out.append(a.z * a.z <= na * nb)
        return out

    def _solve(self, assertions, timeout_ms, want_model=False, deep=False):
        key = (tuple(sorted(a.get_id() for a in assertions)))
        hit = _CACHE.get(key)
        if hit is not None and (hit[0] != "unknown" or (hit[2] >= timeout_ms)) and not want_model:
            STATS["cache"] += 1
            return hit[0], hit[1]
        _KEEP.append(assertions)
        if self.deadline and time.time() > self.deadline:
            return "unknown", None
        t0 = time.time()
        res, model = "unknown", None
        s = z3.Solver()
        s.set("timeout", int(timeout_ms))
        s.add(assertions)
        r = s.check()
        STATS["z3_calls"] += 1
        if r == z3.unsat:
            res = "unsat"
        elif r == z3.sat:
            res, model = "sat", s.model()
        elif deep:
            try:
                t = z3.Then(z3.Tactic("simplify"), z3.Tactic("purify-arith"), z3.Tactic("propagate-values"),
                            z3.Tactic("solve-eqs"), z3.Tactic("simplify"), z3.Tactic("qfnra-nlsat"))
                s2 = t.solver()
                s2.set("timeout", int(timeout_ms))
                s2.add(assertions)
                r = s2.check()
                STATS["z3_calls"] += 1
                if r == z3.unsat:
                    res = "unsat"
                elif r == z3.sat:
                    res, model = "sat", s2.model()
            except z3.Z3Exception:
                pass
        STATS["z3_time"] += time.time() - t0
        if res == "unknown" and deep:
            res = self._cvc5(assertions, timeout_ms)
        _CACHE[key] = (res, model, timeout_ms)
        return res, model

    def _cvc5(self, assertions, timeout_ms):
        try:
            import cvc5
        except Exception:
            return "unknown"
        t0 = time.time()
        try:
            s = z3.Solver()
            s.add(assertions)
            txt = s.to_smt2()
            slv = cvc5.Solver()
            slv.setOption("tlimit", str(int(timeout_ms)))
            slv.setLogic("QF_NIRA" if any("Int" in l for l in txt.splitlines()[:400] if "declare-fun" in l) else "QF_NRA")
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
            sm = p.getSymbolManager()
            res = "unknown"
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                o = c.invoke(slv, sm)
                o = str(o).strip()
                if o in ("unsat", "sat"):
                    res = o
        except Exception:
            res = "unknown"
        STATS["cvc5_calls"] += 1
        STATS["cvc5_time"] += time.time() - t0
        return res if res == "unsat" else "unknown"

    def check(self, extra, timeout_ms=1500, want_model=False, deep=False):
        zs = list(self.pc) + list(extra)
        ax = self.closure(zs)
        return self._solve(zs + ax, timeout_ms, want_model, deep)

    def prove_quick(self, b, timeout_ms=600):
        if b is True:
            return True
        if b is False:
            return False
        r, _ = self.check([z3.Not(bz(b))], timeout_ms)
        return r == "unsat"

    def prove(self, b, timeout_ms=10000):
        """Returns (status, model): proved / refuted / unknown"""
        if b is True:
            return "proved", None
        goal = z3.BoolVal(False) if b is False else bz(b)
        r, m = self.check([z3.Not(goal)], min(2000, timeout_ms))
        if r == "unknown":
            r, m = self.check([z3.Not(goal)], timeout_ms, deep=True)
        if r == "unsat":
            return "proved", None
        if self.vnorms:
            old, self.strong = self.strong, True
            try:
                r2, _ = self.check([z3.Not(goal)], timeout_ms) if not old else ("unknown", None)
            finally:
                self.strong = old
            if r2 == "unsat":
                return "proved", None
        if r == "sat":
            if m is None:
                r, m = self.check([z3.Not(goal)], timeout_ms, want_model=True, deep=True)
            return "refuted", m
        return "unknown", None

    # ------------------------------------------------ decisions
    def decide(self, b):
        if not isinstance(b, SymBool):
            return bool(b)
        z = z3.simplify(b.z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        if self.explorers[-1] is None:
            # no forking inside a generic element evaluation
            if self.recording is not None:
                self.recording.append(b)
                self.pc.append(b.z)
                return True
            if self.prove_quick(b):
                return True
            if self.prove_quick(b_not(b)):
                return False
            raise IndexFork(b)
        ex = self.explorers[-1]
        i = len(ex.trace)
        if i < len(ex.prefix):
            v = ex.prefix[i]
            if v[1]:
                self.pc.append(b.z if v[0] else z3.Not(b.z))
                self._zero_vector(z, v[0])
            ex.trace.append(v)
            return v[0]
        if i > self.max_decisions:
            raise Unsupported("too many decisions on one path")
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("exploration time exhausted")
        rt, _ = self.check([b.z])
        if rt == "unsat":
            v = (False, False)
        else:
            rf, _ = self.check([z3.Not(b.z)])
            if rf == "unsat":
                v = (True, False)
            else:
                v = (True, True)
                ex.new.append(list(ex.trace) + [(False, True)])
        if v[1]:
            self.pc.append(b.z if v[0] else z3.Not(b.z))
            self._zero_vector(z, v[0])
        ex.trace.append(v)
        return v[0]

    def _zero_vector(self, z, val):
        """a vector whose norm was decided to be zero is orthogonal to every vector"""
        if z3.is_not(z):
            z, val = z.arg(0), not val
        if not val or not z3.is_eq(z):
            return
        for a, b in ((z.arg(0), z.arg(1)), (z.arg(1), z.arg(0))):
            if z3.is_rational_value(a) and a.numerator_as_long() == 0:
                w = self.norm_vecs.get(str(b))
                if w is not None:
                    from .vec import Vec
                    for x in list(self.gram_used.values()):
                        d = P(w.dot(Vec(w.dim, {x: 1})))
                        if not d.is_const():
                            self.pc.append(toz(d) == 0)

    def sub_explore(self, fn, max_paths=200):
        """Explore all decision paths of fn() inside the current path.

        fn must not modify state shared between paths. Returns [(pc_added, outcome)].
        """
        results = []
        work = [[]]
        while work:
            if len(results) > max_paths:
                raise Unsupported("too many paths in a loop body")
            prefix = work.pop()
            ex = Explorer(prefix)
            self.explorers.append(ex)
            mark = self.push()
            base = len(self.pc)
            try:
                try:
                    out = ("ok", fn())
                except sym.PyRaise as e:
                    out = ("raise", e.exc)
                except sym.PoisonUse as e:
                    out = ("poison", str(e))
                except PathAbort:
                    out = None
                added = list(self.pc[base:])
            finally:
                self.pop(mark)
                self.explorers.pop()
            work.extend(ex.new)
            if out is not None:
                results.append((added, out))
        return results


class IndexFork(Exception):
    def __init__(self, cond):
        super().__init__(str(cond.z)[:200])
        self.cond = cond


def explore(run, max_paths=400, deadline=None):
    """Run `run(ctx)` for every decision path. Yields (ctx, outcome)."""
    work = [[]]
    n = 0
    while work:
        n += 1
        if n > max_paths:
            raise Unsupported("too many paths")
        prefix = work.pop()
        c = Ctx()
        c.deadline = deadline
        ex = Explorer(prefix)
        c.explorers.append(ex)
        old = sym.set_ctx(c)
        try:
            try:
                out = run(c)
            except PathAbort:
                out = None
            work.extend(ex.new)
            yield c, out
        finally:
            sym.set_ctx(old)
