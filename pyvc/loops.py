"""Summaries of loops and comprehensions over sequences of symbolic length.

A loop is executed once for a generic index k with every loop-carried variable havocked; the
effects that this one iteration provably has (element writes at k, appends, additive or extremal
accumulation, flags, early exits) are turned into facts about the whole loop.  Everything else
is Unsupported (the caller then falls back to a bounded number of iterations, labelled as such).
"""
from __future__ import annotations
import ast
import copy
import numpy as np
import z3
from . import sym, vec, npmodel
from .core import Quant
from .sym import (Poly, Poison, PoisonUse, SymBool, Unsupported, PyRaise, P, ctx, b_and, b_or, b_not, is_num, ite,
                  mkb, bz)
from .vec import Vec, LenArr, Generic


def conj(zs):
    if not zs:
        return True
    return SymBool(z3.And(*zs) if len(zs) > 1 else zs[0])


def merge_results(res, what="value"):
    """res: [(pc list, value)] exhaustive and exclusive -> one merged value"""
    vals = res
    out = vals[-1][1]
    for pcs, v in reversed(vals[:-1]):
        out = merge2(conj(pcs), v, out)
    return out


def merge2(c, a, b):
    from .interp import SymObj
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge2(c, x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            r[i] = merge2(c, a[i], b[i])
        return r
    if a is None or b is None or isinstance(a, (str, SymObj)) or isinstance(b, (str, SymObj)):
        if a is b or (isinstance(a, str) and a == b):
            return a
        raise Unsupported("merging distinct objects")
    return npmodel.merge_val(c, a, b)


def eval_merged(fn):
    """Evaluate fn() (which may branch) and merge the results of all paths into one value."""
    c = ctx()
    if c.recording is not None:
        return fn()
    res = c.sub_explore(fn)
    vals = []
    for pcs, (kind, v) in res:
        if kind == "ok":
            vals.append((pcs, v))
        elif kind == "raise":
            raise Unsupported("element evaluation may raise")
        else:
            raise Unsupported("element evaluation may be undefined")
    if not vals:
        raise sym.PathAbort("no feasible element")
    return merge_results(vals)


def symbolic_comp(I, seq, gen, cenv, fn):
    from .interp import Env

    def elem_env(j):
        e = Env(cenv, cenv.module)
        I.assign(gen.target, seq.at(j), e)
        return e

    memo = {}

    def at(j):
        k = P(j).key()
        if k not in memo:
            memo[k] = eval_merged(lambda: fn(elem_env(j)))
        return memo[k]

    guard = seq.guard
    if gen.ifs:
        g0 = seq.guard

        def guard(j):
            def f():
                e = elem_env(j)
                out = True
                for c in gen.ifs:
                    v = I.eval(c, e)
                    if not isinstance(v, (SymBool, bool)):
                        v = I.truth(v)
                    out = b_and(out, v)
                return out
            g = eval_merged(f)
            return b_and(g0(j), g) if g0 is not None else g
    # a fork inside at() must not leak to the outer path: evaluate once generically
    return LenArr(seq.n, at, guard, "list")


class AppendProbe(list):
    """List written in a symbolic loop: only append is allowed inside the body."""

    def __init__(self, base):
        super().__init__()
        self.base = base
        self.added = []

    def append(self, x):
        self.added.append(x)

    def _no(self, *a, **k):
        raise Unsupported("list read inside a symbolic loop that writes it")
    __getitem__ = __len__ = __iter__ = __contains__ = __setitem__ = __delitem__ = _no
    extend = insert = pop = remove = _no

    def __bool__(self):
        raise Unsupported("list read inside a symbolic loop that writes it")

    def __deepcopy__(self, memo):
        p = AppendProbe(self.base)
        p.added = list(self.added)
        memo[id(self)] = p
        return p


def written_names(body):
    """names assigned, names mutated through subscript/attribute/method in the loop body"""
    assigned, mutated = set(), set()

    def base(n):
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            n = n.value
        return n.id if isinstance(n, ast.Name) else None

    def tgt(t):
        if isinstance(t, ast.Name):
            assigned.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            b = base(t)
            if b:
                mutated.add((b, ast.unparse(t.value) if isinstance(t, ast.Subscript) else ast.unparse(t)))
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgt(n.target)
            elif isinstance(n, ast.NamedExpr):
                assigned.add(n.target.id)
            elif isinstance(n, ast.For):
                tgt(n.target)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "append", "extend", "insert", "pop", "remove", "clear", "sort", "update", "add"):
                b = base(n.func.value)
                if b:
                    mutated.add((b, ast.unparse(n.func.value)))
    return assigned, mutated


def summarize_for(I, st, env, seq):
    from .interp import ReturnEx, BreakEx, ContinueEx, LoopVar, env_set, Env
    c = ctx()
    if c.explorers[-1] is None:
        raise Unsupported("loop inside an element-wise evaluation")
    assigned, mutated = written_names(st.body)
    tnames = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
    assigned -= tnames

    # locations written: local names or dotted/simple expressions holding lists / arrays
    locs = {}
    for b, txt in mutated:
        if b in tnames or (b in assigned and b not in env.vars):
            continue
        try:
            node = ast.parse(txt, mode="eval").body
            o = I.eval(node, env)
        except (PyRaise, Unsupported):
            continue
        if isinstance(o, (list, LenArr, np.ndarray)) or isinstance(o, Vec):
            locs[txt] = (node, o)
        elif isinstance(o, (dict, set)):
            raise Unsupported("dictionary or set written in a symbolic loop")
        elif isinstance(node, ast.Attribute):
            locs[txt] = (node, o)
    # attribute accumulators (self.x += ..) are outside the summary
    for txt, (node, o) in locs.items():
        if not isinstance(o, (list, LenArr)):
            raise Unsupported(f"write to {txt} in a symbolic loop")

    carried = [n for n in assigned if n in env.vars]
    init = {n: env.vars[n] for n in carried}
    hav = {}

    with Generic(seq.n, seq.guard, nofork=False) as k:
        kid = k.single_atom().id

        def havoc(n, v):
            if n in hav:
                return copy.copy(hav[n]) if isinstance(v, Vec) else hav[n]
            if isinstance(v, bool) or isinstance(v, SymBool):
                a = vec._bool_atom(("hav", n, id(st), len(c.pc)), "hv_" + n, frozenset())
                hav[n] = SymBool(a.z)
            elif npmodel.is_scalar(v) and not isinstance(v, Poison):
                hav[n] = sym.fresh("hv_" + n)
            elif isinstance(v, Vec):
                va = vec.VAtom("hv_" + n)
                hav[n] = Vec(v.dim, {va: 1})
                return hav[n].copy()
            elif v is None or isinstance(v, str):
                hav[n] = _HavocAny()
            else:
                hav[n] = _HavocAny()
            return hav[n]
        # create the havoc values outside of the sub-paths
        for n in carried:
            if not isinstance(init[n], (list, LenArr)):
                havoc(n, init[n])

        def run():
            e = Env(env.parent, env.module)
            e.globals_ = env.globals_
            memo = {}
            probes = {}
            for txt, (node, o) in locs.items():
                if isinstance(o, list):
                    p = AppendProbe(o)
                else:
                    p = LenArr(o.n, _probe_fn(o, k), o.guard, o.kind)
                memo[id(o)] = p
                probes[txt] = p
            memo_keep = dict(memo)
            e.vars = {n: copy.deepcopy(v, memo) for n, v in env.vars.items()}
            for n in carried:
                if n in hav and not isinstance(init[n], (list, LenArr)):
                    e.vars[n] = hav[n].copy() if isinstance(hav[n], Vec) else hav[n]
            snap = _snapshot(e.vars, memo_keep)
            I.assign(st.target, seq.at(k), e)
            status = "next"
            try:
                I.exec_body(st.body, e)
            except ContinueEx:
                pass
            except BreakEx:
                status = "break"
            except ReturnEx as r:
                status = "return"
            _check_frame(e.vars, snap, carried, assigned | tnames)
            return status, e, probes
        res = c.sub_explore(run)
        base_pc = len(c.pc)

        exits, nexts = [], []
        for pcs, (kind, v) in res:
            if kind == "ok" and v[0] == "next":
                nexts.append((pcs, v))
            elif kind == "poison":
                exits.append((pcs, "poison"))
            elif kind == "raise":
                exits.append((pcs, "raise"))
            else:
                exits.append((pcs, v[0]))
        exit_cond = b_or(*[conj(p) for p, _ in exits]) if exits else False
        if exit_cond is not False:
            _no_hav(exit_cond, hav)
    n = seq.n
    g = seq.guard

    if exits:
        any_exit = (True if exit_cond is True else
                    vec.any_atom(b_and(exit_cond, g(k) if g is not None else True), k, P(n)))
        if exit_cond is True:
            any_exit = P(n) > 0
        if I.truth(any_exit):
            # first exiting index
            if carried and any(nm in hav for nm in _really_changed(nexts, hav, carried)) or locs:
                raise Unsupported("early exit from a loop with other effects")
            w = c.new_index("first", n)
            z = None if exit_cond is True else z3.simplify(exit_cond.z)

            def ec(j):
                b = True if z is None else mkb(vec.subst_bool(z, kid, j, {}))
                return b_and(b, g(j) if g is not None else True)
            c.assume(b_and(w >= 0, w < P(n), ec(w)))
            c.assume_forall(P(n), lambda j: sym.b_implies(P(j) < w, b_not(ec(j))))
            I.assign(st.target, seq.at(w), env)
            try:
                I.exec_body(st.body, env)
            except BreakEx:
                return
            except ContinueEx:
                pass
            raise sym.PathAbort("iteration exits")
        z = None if exit_cond is True else z3.simplify(exit_cond.z)
        if z is not None:
            c.assume_forall(P(n), lambda j: b_not(b_and(mkb(vec.subst_bool(z, kid, j, {})), g(j) if g is not None else True)))

    if not nexts:
        I.exec_body(st.orelse, env)
        return

    # ---- effects of one iteration
    def at_generic(fn):
        with Generic(n, g, nofork=False):
            return fn()

    updates = []
    for nme in sorted(assigned | tnames):
        if nme in carried and nme not in tnames:
            if isinstance(init[nme], (list, LenArr)):
                if nme in locs and all(v[1].vars.get(nme) is v[2].get(nme) for _, v in nexts):
                    continue
                updates.append((nme, LoopVar()))
                continue
            updates.append((nme, at_generic(lambda: accumulate(nme, init[nme], hav, nexts, k, seq))))
        else:
            updates.append((nme, LoopVar()))
    loc_updates = []
    for txt, (node, o) in locs.items():
        if isinstance(o, LenArr):
            loc_updates.append((o, at_generic(lambda: array_effect(o, txt, nexts, k, kid, seq, hav)), None))
        else:
            loc_updates.append((o, None, at_generic(lambda: list_effect(o, txt, nexts, k, kid, seq, hav))))
    # ---- apply
    for nme, v in updates:
        if isinstance(v, LoopVar):
            env.vars[nme] = v
        else:
            env_set(env, nme, v)
    for o, arr, lst in loc_updates:
        if arr is not None:
            o._fn = arr
        elif lst is not None:
            _replace_list(I, env, o, lst)
    if not any(isinstance(s, ast.Break) for b in st.body for s in ast.walk(b)):
        I.exec_body(st.orelse, env)


class _HavocAny:
    def __deepcopy__(self, memo):
        return self


def _probe_fn(o, k):
    f = o._fn

    def fn(j):
        if P(j).t == k.t:
            return f(j)
        raise Unsupported("array element of another iteration read inside the loop that writes it")
    return fn


def _snapshot(vars, memo):
    out = {}
    for n, v in vars.items():
        out[n] = (v, _fp(v))
    return out


def _fp(v, d=0):
    """shallow fingerprint of mutable state"""
    from .interp import SymObj
    if isinstance(v, AppendProbe):
        return "probe"
    if isinstance(v, Vec):
        return ("vec", tuple((a.id, P(c).key()) for a, c in v.t.items()))
    if isinstance(v, LenArr):
        return ("larr",)
    if isinstance(v, np.ndarray):
        return ("nd", tuple(_fp(x, d + 1) for x in v.flat))
    if isinstance(v, list) and d < 3:
        return ("list", tuple(_fp(x, d + 1) for x in v))
    if isinstance(v, dict) and d < 3:
        return ("dict", tuple((repr(k), _fp(x, d + 1)) for k, x in v.items()))
    if isinstance(v, SymObj) and d < 3:
        return ("obj", tuple((k, _fp(x, d + 1)) for k, x in v.f.items()))
    if isinstance(v, Poly):
        return v.key()
    if npmodel.is_scalar(v) or v is None or isinstance(v, str):
        return repr(v)
    return id(v)


def _check_frame(vars, snap, carried, assigned):
    for n, (v, fp) in snap.items():
        if n in assigned:
            continue
        if vars.get(n) is not v or _fp(v) != fp:
            raise Unsupported(f"side effect on {n} in a symbolic loop")


def _no_hav(b, hav):
    c = ctx()
    names = c.z_consts(b.z if isinstance(b, SymBool) else toz(b)) if b is not True else set()
    for n, h in hav.items():
        if isinstance(h, Poly) and h.single_atom().name in names:
            raise Unsupported("loop exit depends on an accumulator")
        if isinstance(h, SymBool) and str(h.z) in names:
            raise Unsupported("loop exit depends on an accumulator")


def toz(x):
    return sym.toz(x)


def _uses(v, h):
    """does value v depend on havoc value h?"""
    c = ctx()
    if isinstance(h, _HavocAny):
        return v is h
    if isinstance(h, Poly):
        hid = h.single_atom().id
        if isinstance(v, Poly):
            return _dep_poly(v, hid)
        if isinstance(v, SymBool):
            return _dep_z(v.z, hid)
        if isinstance(v, Vec):
            return any(_dep_poly(P(x), hid) for x in v.t.values())
        if isinstance(v, np.ndarray):
            return any(_uses(x, h) for x in v.flat)
        return False
    if isinstance(h, SymBool):
        if isinstance(v, SymBool):
            return str(h.z) in c.z_consts(v.z)
        if isinstance(v, Poly):
            return any(str(h.z) in c.z_consts(a.info) for a in v.atoms() if a.kind == "ind")
        return False
    if isinstance(h, Vec):
        (a, _), = h.t.items()
        if isinstance(v, Vec):
            return a in v.t or any(_dep_poly(P(x), None, a) for x in v.t.values())
        if isinstance(v, Poly):
            return _dep_poly(v, None, a)
    return False


def _dep_poly(p, hid, va=None, seen=None):
    seen = set() if seen is None else seen
    c = ctx()
    for a in p.atoms():
        if a.id == hid:
            return True
        if a.id in seen:
            continue
        seen.add(a.id)
        if va is not None and a.kind == "gram" and va in a.info:
            return True
        if va is not None and va._norm is not None and Poly.atom(a).t == P(va._norm).t:
            return True
        if a.axioms is not None:
            if a._ax_cache is None:
                a._ax_cache = a.axioms()
            for ax in a._ax_cache:
                if _dep_z(ax, hid, va, seen):
                    return True
    return False


def _dep_z(z, hid, va=None, seen=None):
    c = ctx()
    seen = set() if seen is None else seen
    for nm in c.z_consts(z):
        a = c.by_zname.get(nm)
        if a is None:
            continue
        if a.id == hid:
            return True
        if a.id not in seen and not isinstance(a.z, z3.BoolRef):
            if _dep_poly(Poly.atom(a), hid, va, seen):
                return True
    return False


def _really_changed(nexts, hav, carried):
    out = []
    for n in carried:
        for pcs, (s, e, pr) in nexts:
            v = e.vars.get(n)
            h = hav.get(n)
            if h is None:
                continue
            if isinstance(v, Vec) and isinstance(h, Vec):
                if v.t != h.t:
                    out.append(n)
            elif v is not h:
                if isinstance(v, Poly) and isinstance(h, Poly) and v.t == h.t:
                    continue
                out.append(n)
    return out


def accumulate(name, init, hav, nexts, k, seq):
    """Value of a loop-carried local after the loop."""
    from .interp import LoopVar
    c = ctx()
    h = hav[name]
    vals = [(pcs, v[1].vars.get(name)) for pcs, v in nexts]
    others = [x for n, x in hav.items() if n != name]
    same = lambda v: (v is h) or (isinstance(v, Poly) and isinstance(h, Poly) and v.t == h.t) or (
        isinstance(v, Vec) and isinstance(h, Vec) and v.t == h.t) or (
        isinstance(v, SymBool) and isinstance(h, SymBool) and z3.eq(v.z, h.z))
    if all(same(v) for _, v in vals):
        return init
    if isinstance(h, _HavocAny):
        return LoopVar()
    for _, v in vals:
        for o in others:
            if _uses(v, o):
                raise Unsupported(f"{name} depends on another loop-carried variable")
    condsuse = [any(_uses(SymBool(z), h) for z in pcs) for pcs, _ in vals]
    for pcs, _ in vals:
        for z in pcs:
            for o in others:
                if _uses(SymBool(z), o):
                    raise Unsupported("loop branch depends on another loop-carried variable")
    # flags
    if isinstance(h, SymBool):
        if any(condsuse):
            raise Unsupported("loop-carried flag")
        tr = [conj(p) for p, v in vals if v is True]
        fa = [conj(p) for p, v in vals if v is False]
        rest = [v for p, v in vals if not (v is True or v is False or same(v))]
        g = seq.guard(k) if seq.guard is not None else True
        if not rest and tr and not fa:
            return b_or(init, vec.any_atom(_sb(b_and(g, b_or(*tr))), k, P(seq.n)) if b_or(*tr) is not True or g is not True else P(seq.n) > 0)
        if not rest and fa and not tr:
            e = b_and(g, b_or(*fa))
            return b_and(init, b_not(vec.any_atom(_sb(e), k, P(seq.n)) if e is not True else P(seq.n) > 0))
        # conjunction / disjunction updates: v = h and e
        if len(vals) == 1:
            v = vals[0][1]
            if isinstance(v, SymBool):
                hz = h.z
                v1 = mkb(z3.simplify(z3.substitute(v.z, (hz, z3.BoolVal(True)))))
                v0 = mkb(z3.simplify(z3.substitute(v.z, (hz, z3.BoolVal(False)))))
                if v0 is False:
                    return b_and(init, b_not(vec.any_atom(_sb(b_and(g, b_not(v1))), k, P(seq.n))) if v1 is not True else True)
                if v1 is True:
                    return b_or(init, vec.any_atom(_sb(b_and(g, v0)), k, P(seq.n)) if v0 is not False else False)
        raise Unsupported(f"loop-carried flag {name}")
    if not any(condsuse):
        # additive
        deltas = []
        ok = True
        for pcs, v in vals:
            if isinstance(h, Vec):
                if not isinstance(v, Vec):
                    ok = False
                    break
                d = v - h
            else:
                if not npmodel.is_scalar(v) or isinstance(v, (Poison, bool)):
                    ok = False
                    break
                d = P(v) - h
            if _uses(d, h):
                ok = False
                break
            deltas.append((pcs, d))
        if ok:
            d = merge_results(deltas)
            arr = LenArr(seq.n, lambda j: d, seq.guard)
            s = vec._sum_at(arr, k, d)
            if isinstance(h, Vec):
                base = init if isinstance(init, Vec) else Vec(h.dim)
                return base + s
            return P(init) + s
        if all(not _uses(v, h) for _, v in vals):
            return LoopVar()
    # min / max accumulation
    if isinstance(h, Poly):
        upd = [(p, v) for p, v in vals if not same(v)]
        keep = [(p, v) for p, v in vals if same(v)]
        if all(npmodel.is_scalar(v) and not _uses(v, h) for _, v in upd) and keep and upd:
            e = merge_results(upd)
            cond = b_or(*[conj(p) for p, _ in upd])
            for mx in (False, True):
                strict = (P(e) > h) if mx else (P(e) < h)
                weak = (P(e) >= h) if mx else (P(e) <= h)
                if c.prove_quick(SymBool(bz(cond) == bz(strict))) or c.prove_quick(SymBool(bz(cond) == bz(weak))):
                    return _extremal(init, e, k, seq, mx)
        if len(vals) == 1 and isinstance(vals[0][1], Poly):
            at = vals[0][1].single_atom()
            if at is not None and at.kind in ("min", "max"):
                a, b = at.info
                e = b if a.t == h.t else (a if b.t == h.t else None)
                if e is not None and not _uses(e, h):
                    return _extremal(init, sym.normal(e), k, seq, at.kind == "max")
    raise Unsupported(f"loop-carried variable {name}")


def _sb(b):
    return b if isinstance(b, SymBool) else SymBool(z3.BoolVal(bool(b)))


def _extremal(init, e, k, seq, mx):
    c = ctx()
    import math
    arr = LenArr(seq.n, lambda j: e, seq.guard)
    # value if the sequence is empty is the initial one
    ne = vec.nonempty(LenArr(seq.n, lambda j: 1, seq.guard))
    m = vec._min_at(LenArr(seq.n, None, seq.guard), k, e, mx)
    if isinstance(init, float) and math.isinf(init):
        if c.prove_quick(ne):
            return m
        raise Unsupported("extremum of a possibly empty sequence")
    f = sym.smax if mx else sym.smin
    if ne is True or c.prove_quick(ne):
        return f(init, m)
    return ite(ne, f(init, m), init)


def array_effect(o, txt, nexts, k, kid, seq, hav):
    """New element function of an array written in the loop (only at index k)."""
    c = ctx()
    if not vec.same_len(o.n, seq.n):
        # range(1, n) style offsets etc.
        raise Unsupported("array and loop of different length")
    vals = []
    old = o._fn
    for pcs, (s, e, probes) in nexts:
        p = probes[txt]
        v = p._fn(k)
        vals.append((pcs, v))
    # nothing else is written
    other = c.new_index("other", seq.n)
    for pcs, (s, e, probes) in nexts:
        p = probes[txt]
        if p._fn.__name__ == "fn" and getattr(p._fn, "__closure__", None) is None:
            continue
        mark = c.push()
        c.pc.extend(pcs)
        c.assume(b_and(other >= 0, other < P(seq.n), other != k))
        try:
            ok = _unchanged(p, o, other, k)
        finally:
            c.pop(mark)
        if not ok:
            raise Unsupported("write to another element in a symbolic loop")
    v = merge_results(vals)
    for h in hav.values():
        if _uses(v, h):
            raise Unsupported("array element depends on a loop-carried variable")
    for pcs, _ in vals:
        for z in pcs:
            for h in hav.values():
                if _uses(SymBool(z), h):
                    raise Unsupported("array element depends on a loop-carried variable")
    g = seq.guard

    def fn(j):
        r = _subst_val(v, kid, j)
        if g is not None:
            return npmodel.merge_val(g(j), r, old(j))
        return r
    return fn


def _unchanged(p, o, other, k):
    """new array at `other` (!= k) equals the old one"""
    # the probe raises on other indices; writes are layered closures over it
    f = p._fn
    c = ctx()
    tmp_old = o._fn

    class _Tok:
        pass
    # evaluate with a permissive probe: rebuild by catching the Unsupported of the base
    try:
        r = f(other)
    except Unsupported as e:
        return "another iteration" in str(e)
    if isinstance(r, Poly) or npmodel.is_scalar(r):
        old = tmp_old(other)
        return c.prove_quick(P(r) == P(old)) if not isinstance(r, (SymBool, bool)) else c.prove_quick(SymBool(bz(r) == bz(old)))
    return False


def _subst_val(v, kid, j):
    c = ctx()
    if isinstance(v, Poly):
        return vec.subst_poly(v, kid, j)
    if isinstance(v, SymBool):
        return mkb(vec.subst_bool(v.z, kid, j, {}))
    if isinstance(v, Vec):
        t = {}
        for a, co in v.t.items():
            na = vec.subst_vatom(a, kid, j)
            nc = vec.subst_poly(P(co), kid, j)
            t[na] = t.get(na, 0) + nc
        return Vec(v.dim, t)
    if isinstance(v, tuple):
        return tuple(_subst_val(x, kid, j) for x in v)
    if isinstance(v, np.ndarray):
        r = np.empty(v.shape, dtype=object)
        for i in np.ndindex(v.shape):
            r[i] = _subst_val(v[i], kid, j)
        return r
    if npmodel.is_scalar(v) or v is None or isinstance(v, str):
        return v
    raise Unsupported(f"generic element of type {type(v).__name__}")


def list_effect(o, txt, nexts, k, kid, seq, hav):
    if len(o) != 0:
        raise Unsupported("append to a non-empty list in a symbolic loop")
    vals, conds = [], []
    for pcs, (s, e, probes) in nexts:
        a = probes[txt].added
        if len(a) > 1:
            raise Unsupported("several appends per iteration")
        if a:
            vals.append((pcs, a[0]))
            conds.append(conj(pcs))
        for z in pcs:
            for h in hav.values():
                if _uses(SymBool(z), h):
                    raise Unsupported("append depends on a loop-carried variable")
    if not vals:
        return None
    v = merge_results(vals)
    for h in hav.values():
        if _uses(v, h):
            raise Unsupported("appended element depends on a loop-carried variable")
    cond = b_or(*conds) if len(vals) < len(nexts) else True
    g = seq.guard
    guard = g
    if cond is not True:
        z = z3.simplify(cond.z)

        def guard(j):
            b = mkb(vec.subst_bool(z, kid, j, {}))
            return b_and(b, g(j)) if g is not None else b
    return LenArr(seq.n, lambda j: _subst_val(v, kid, j), guard, "list")


def _replace_list(I, env, o, lst):
    """rebind every local / attribute that refers to list object o"""
    from .interp import SymObj
    done = False
    e = env
    seen = set()

    def visit(obj):
        nonlocal done
        if id(obj) in seen:
            return
        seen.add(id(obj))
        if isinstance(obj, SymObj):
            for kx, v in list(obj.f.items()):
                if v is o:
                    obj.f[kx] = lst
                    done = True
                else:
                    visit(v)
        elif isinstance(obj, (list, tuple)):
            for v in obj:
                visit(v)
    while e is not None:
        for n, v in list(e.vars.items()):
            if v is o:
                e.vars[n] = lst
                done = True
            else:
                visit(v)
        e = e.parent
    if not done:
        raise Unsupported("list written through an unknown alias")
