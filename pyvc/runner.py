"""Decide one property: prove every contract obligation on the current source, replay refutations."""
from __future__ import annotations
import ast
import glob
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYVC_REPO", "/repo")
TECH = "contract-based deductive verification (pyvc: symbolic execution of the repository AST against contracts, z3/cvc5)"


def setup():
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ["PYTHONBREAKPOINT"] = "0"
    for p in (REPO, os.path.join(HERE, "stubs"), HERE):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    warnings.simplefilter("ignore")


def load_contracts(prop):
    from . import contract
    contract.REGISTRY.clear()
    for p in sorted(glob.glob(os.path.join(HERE, "contracts", "c*.py"))):
        m = os.path.basename(p)[:-3]
        importlib.import_module("contracts." + m)
    importlib.import_module("contracts.summaries")
    if prop is None:
        return list(contract.REGISTRY)
    byid = {c.id: c for c in contract.REGISTRY}
    out = [c for c in contract.REGISTRY if c.prop == prop]
    for c in out:                       # the contracts of the callees that are used as summaries
        for t in c.modular:
            for d in contract.SUMMARIES[t].proved_by:
                if byid[d] not in out:
                    out.append(byid[d])
    return out


def literals(targets):
    out = set()
    for t in targets:
        f = os.path.join(REPO, t.split(":")[0].replace(".", "/") + ".py")
        try:
            for n in ast.walk(ast.parse(open(f).read())):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    if abs(n.value) < 1e4:
                        out.add(float(n.value))
        except OSError:
            pass
    return sorted(out)


# ------------------------------------------------------------------------------------ concrete side
class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def run_concrete(con, S):
    """-> None if the contract holds for these inputs, else (obligation, detail)"""
    import numpy as np
    from .contract import Skip, Violated, MockGap
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 20)
    try:
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            con.fn(S)
    except Skip:
        return "skip"
    except Violated as e:
        return (e.name, e.detail)
    except MockGap:
        return "skip"
    except Hang:
        return ("terminates", "no result within 20 s")
    except RecursionError:
        return ("no exception", "RecursionError")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = f"{os.path.relpath(tb[-1].filename, REPO)}:{tb[-1].lineno}" if tb else ""
        return ("no exception", f"{type(e).__name__}: {e} at {where}"[:400])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def search(con, seed, samples, seconds, given=None):
    import zlib
    import numpy as np
    from .contract import ConS, _vis
    lits = literals(con.targets)
    t0 = time.time()
    n = sk = 0
    distinct = set()
    sample = None
    rng = np.random.default_rng([seed, zlib.crc32(con.id.encode())])
    devnull = open(os.devnull, "w")
    old = sys.stdout
    sys.stdout = devnull
    try:
        while n < samples and time.time() - t0 < seconds:
            n += 1
            S = ConS(rng, given, lits)
            r = run_concrete(con, S)
            if r == "skip":
                sk += 1
                if n == samples and sk > 0.5 * n and samples < 20 * con.samples:
                    samples += con.samples
                continue
            if S.checked:
                distinct.add(repr(_vis(list(S.inputs.values())))[:400])
                if sample is None:
                    sample = {k: _vis(v) for k, v in S.inputs.items()}
            if r is not None:
                return dict(n=n, skipped=sk, distinct=len(distinct), sample=sample,
                            violation=dict(obligation=r[0], detail=r[1],
                                           inputs={k: _vis(v) for k, v in S.inputs.items()}))
    finally:
        sys.stdout = old
    return dict(n=n, skipped=sk, distinct=len(distinct), sample=sample, violation=None)


# ------------------------------------------------------------------------------------ symbolic side
def prove(con, deadline_s, replay=True):
    from . import core, interp, symsession, sym
    from .contract import ConS, Skip, SUMMARIES, _vis
    import numpy as np
    t0 = time.time()
    obl = []
    info = dict(paths=0, live=0, used=set(), assumed=set(), notes=set(), unsupported=None, violation=None,
                contracts=set())
    fails = []

    def run(c):
        I = interp.Interp()
        S = symsession.SymS(I, con.timeout_ms)
        I.S = S
        c.strong = con.strong
        I.contracts = {SUMMARIES[t].target: SUMMARIES[t] for t in con.modular}
        c.S = S
        try:
            con.fn(S)
            return "ok"
        except sym.PyRaise as e:
            return ("raise", symsession.exc_name(e.exc) + " " + repr(getattr(e.exc, "args", ""))[:200])
        except sym.PoisonUse as e:
            return ("poison", str(e))

    try:
        for c, out in core.explore(run, max_paths=con.max_paths, deadline=t0 + deadline_s):
            info["paths"] += 1
            S = getattr(c, "S", None)
            info["used"] |= c.used_funcs
            info["assumed"] |= c.assumed
            info["notes"] |= c.notes
            info["contracts"] |= c.used_contracts
            if out is None or S is None:
                continue
            live = None
            if out != "ok":
                r, m = c.check([], 4000, want_model=True)
                if r != "unsat" and c.prove(False, 4000)[0] == "proved":
                    r = "unsat"
                if r == "unsat":
                    continue
                nm = "no exception" if out[0] == "raise" else "defined result"
                S.oblig.append(symsession.Obligation(nm, "refuted" if r == "sat" else "unknown", out[1],
                                                     (m, dict(S.inputs)) if m is not None else None))
                live = True
            elif not S.oblig:
                continue
            else:
                r, _ = c.check([], 2000)
                live = r != "unsat"
            if live:
                info["live"] += 1
            for o in S.oblig:
                obl.append((o.name, o.status, o.detail, round(o.secs, 3)))
                if o.status != "proved":
                    cand = None
                    if o.model is not None and len(fails) < 12:
                        try:
                            cand = symsession.concretise(c, *o.model)
                        except Exception as e:
                            cand = None
                    fails.append((o.name, o.status, o.detail, cand))
    except sym.Unsupported as e:
        info["unsupported"] = str(e)[:400]
    except sym.PathAbort as e:
        info["unsupported"] = "path abort outside exploration"
    except (RecursionError, MemoryError) as e:
        info["unsupported"] = type(e).__name__
    except Exception as e:
        info["unsupported"] = f"engine error {type(e).__name__}: {e} " + "".join(
            traceback.format_tb(e.__traceback__)[-3:])[-700:]
    if replay:
        for nm, st, det, cand in fails:
            if cand is None:
                continue
            for k in range(6):
                rng = np.random.default_rng(k)
                g = dict(cand)
                if k >= 3:
                    for kk in list(g):
                        if isinstance(g[kk], float) and rng.random() < 0.5:
                            g[kk] = g[kk] * (1 + 0.01 * rng.normal())
                S = ConS(rng, g)
                old = sys.stdout
                sys.stdout = open(os.devnull, "w")
                try:
                    try:
                        r = run_concrete(con, S)
                    finally:
                        sys.stdout = old
                except Exception:
                    r = None
                if r not in (None, "skip"):
                    info["violation"] = dict(obligation=r[0], detail=r[1], from_model=True,
                                             inputs={a: _vis(b) for a, b in S.inputs.items()})
                    break
            if info["violation"]:
                break
    info["obligations"] = obl
    info["fails"] = [(a, b, d[:600]) for a, b, d, _ in fails][:20]
    info["wall"] = round(time.time() - t0, 2)
    info["stats"] = dict(core.STATS)
    for k in ("used", "assumed", "notes", "contracts"):
        info[k] = sorted(info[k])
    return info


# ------------------------------------------------------------------------------------ processes
def _job(conn, kind, con, args):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        sys.setrecursionlimit(20000)
        if os.environ.get("PYVC_DEBUG") is None:
            fd = os.open(os.devnull, os.O_WRONLY)
            os.dup2(fd, 2)
        r = search(con, *args) if kind == "search" else prove(con, *args)
        conn.send(r)
    except BaseException as e:
        try:
            conn.send(dict(crash=f"{type(e).__name__}: {e}"))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_jobs(jobs, limit, nproc=8):
    """jobs: list of (key, kind, con, args, timeout). Returns {key: result}"""
    ctx = mp.get_context("fork")
    todo = list(jobs)
    run = {}
    res = {}
    t_end = time.time() + limit
    while todo or run:
        while todo and len(run) < nproc:
            key, kind, con, args, to = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_job, args=(b, kind, con, args))
            p.start()
            b.close()
            run[key] = (p, a, time.time() + to)
        from multiprocessing.connection import wait
        wait([a for _, a, _ in run.values()], timeout=0.2)
        for key in list(run):
            p, a, dl = run[key]
            if a.poll():
                try:
                    res[key] = a.recv()
                except EOFError:
                    res[key] = dict(crash="process ended")
                p.join(2)
                if p.is_alive():
                    p.kill()
                del run[key]
            elif not p.is_alive():
                res[key] = dict(crash="process ended")
                del run[key]
            elif time.time() > min(dl, t_end):
                p.kill()
                p.join()
                res[key] = dict(crash="timeout")
                del run[key]
    return res


def known_findings():
    p = os.path.join(HERE, "known_findings.jsonl")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if d.get("status") == "known":
                    out[(d["contract"], d["obligation"])] = d
    return out


def main(argv=None):
    argv = argv or sys.argv[1:]
    prop = argv[0]
    only = argv[1] if len(argv) > 1 else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    setup()
    try:
        os.setsid()
    except OSError:
        pass
    import pyvc  # noqa
    from pyvc import interp  # noqa: load z3 before forking
    import numpy  # noqa
    cons = load_contracts(prop)
    if only:
        cons = [c for c in cons if only in c.name]
    if not cons:
        print(f"no contracts for {prop}")
        return 1
    thorough = tier == "thorough"
    jobs = []
    for c in cons:
        if c.mode == "proof":
            dl = 600 if thorough else 240
            jobs.append(((c.id, "prove"), "prove", c, (dl,), dl + 60))
    for c in cons:
        mult = 1 if c.mode == "proof" else 2
        if thorough:
            jobs.append(((c.id, "search"), "search", c, (seed, c.samples * 20 * mult, 60 * mult), 200))
        else:
            jobs.append(((c.id, "search"), "search", c, (seed, c.samples * mult, c.con_seconds * mult), 90))
    res = run_jobs(jobs, 700 if not thorough else 3000)
    # second round: undischarged obligations get a longer concrete search
    again = []
    for c in cons:
        pr = res.get((c.id, "prove"))
        se = res.get((c.id, "search"))
        if (se or {}).get("violation") or (pr or {}).get("violation"):
            continue
        bad = pr is not None and (pr.get("crash") or pr.get("unsupported") or pr.get("fails"))
        if bad:
            again.append(((c.id, "search2"), "search", c, (seed + 1000, c.samples * 12, 25), 90))
    if again:
        res.update(run_jobs(again, 200))
    known = known_findings()
    out_dir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(out_dir, exist_ok=True)
    nviol = 0
    ob_total = ob_ok = 0
    funcs, assumed, notes, details, bounded, samples, findings = set(), set(), set(), [], [], [], []
    evals = distinct = 0
    stats = {}
    for c in cons:
        pr = res.get((c.id, "prove"))
        v = None
        kind = None
        d = dict(contract=c.id, targets=list(c.targets), mode=c.mode)
        for k in ("search", "search2"):
            se = res.get((c.id, k))
            if se and not se.get("crash"):
                evals += se["n"] - se["skipped"]
                distinct += se["distinct"]
                if se["sample"] and len(samples) < 6:
                    samples.append(dict(contract=c.id, inputs=se["sample"]))
                d["bounded_search_" + k] = dict(runs=se["n"], outside_precondition=se["skipped"], distinct=se["distinct"])
                if se["violation"]:
                    v, kind = se["violation"], "input"
            elif se:
                d[k] = se["crash"]
        if pr is not None:
            if pr.get("crash"):
                d["unsupported"] = "verifier " + pr["crash"]
                d["bounded_fallback"] = True
            else:
                n = len(pr["obligations"])
                ok = sum(1 for o in pr["obligations"] if o[1] == "proved")
                ob_total += n
                ob_ok += ok
                d.update(obligations=n, discharged=ok, paths=pr["paths"], reachable_paths=pr["live"], wall_s=pr["wall"],
                         obligation_names=sorted({o[0] for o in pr["obligations"]}))
                funcs |= set(pr["used"])
                assumed |= set(pr["assumed"])
                notes |= set(pr["notes"])
                if pr["contracts"]:
                    d["callee_contracts"] = list(pr["contracts"])
                for k, x in pr["stats"].items():
                    stats[k] = stats.get(k, 0) + x
                if pr["violation"] and v is None:
                    v, kind = pr["violation"], "input"
                if pr["unsupported"]:
                    d["unsupported"] = pr["unsupported"]
                    d["bounded_fallback"] = True
                if v is None and pr["fails"]:
                    f = pr["fails"][0]
                    v = dict(obligation=f[0], detail=f"{f[1]}: {f[2]}", inputs=None)
                    kind = "noinput"
                if v is None and not pr["unsupported"] and (n == 0 or pr["live"] == 0):
                    v = dict(obligation="vacuity", detail="no reachable obligation was generated", inputs=None)
                    kind = "noinput"
        if c.mode == "bounded":
            d["bounded"] = True
            d["why_bounded"] = c.why_bounded
            bounded.append(c.id)
        elif d.get("bounded_fallback"):
            bounded.append(c.id + " (fallback: " + str(d["unsupported"])[:160] + ")")
        if v is not None:
            d["failed"] = v["obligation"]
            if (c.id, v["obligation"]) in known:
                print(f"KNOWN-FINDING: property={prop} {known[(c.id, v['obligation'])]['what']}")
                findings.append(c.id)
            else:
                nviol += 1
                rp = os.path.join(out_dir, c.id.replace("/", "_") + ".json")
                with open(rp, "w") as f:
                    json.dump(dict(property=prop, contract=c.id, targets=list(c.targets), obligation=v["obligation"],
                                   detail=v["detail"], inputs=v["inputs"],
                                   failed_obligations=(pr or {}).get("fails"),
                                   replay_cmd=f"cd /verif && ./check --replay {rp}"), f, indent=1)
                print(f"failed obligation: {c.id} :: {v['obligation']} ({str(v['detail'])[:200]})")
                tail = " no-failing-input-found" if kind == "noinput" else ""
                print(f"VIOLATION property={prop} replay={rp}{tail}")
        details.append(d)
    ev = dict(property=prop, tier=tier, seed=seed, level="proof", coverage=dict(
        obligations=ob_total, discharged=ob_ok, checker_cmd=f"/verif/check {prop}",
        trusted_base=["pyvc (this repository's own obligation generator, /verif/pyvc)", "z3 5.3.2", "cvc5 1.4.2",
                      "numpy/math models of pyvc.npmodel", "assumed source of external packages: /verif/stubs"],
        functions_under_contract=sorted(funcs), assumed_functions=sorted(assumed), backends=dict(
            z3_queries=stats.get("z3_calls", 0), z3_seconds=round(stats.get("z3_time", 0), 2),
            cvc5_queries=stats.get("cvc5_calls", 0), cvc5_seconds=round(stats.get("cvc5_time", 0), 2)),
        bounded=bounded, contracts=details, evaluations=evals, distinct_nontrivial=distinct,
        rule="bounded concrete runs of the same contracts on the real code (random, boundary, duplicate, antiparallel and "
             "zero inputs, literals of the source); non-trivial = precondition satisfied and a postcondition evaluated",
        samples=samples, known_findings=findings),
        assumptions=sorted(notes) + [
            "machine arithmetic treated as exact real arithmetic",
            "numpy/scipy/networkx behave as documented (modelled)",
            "packages vartools and dynamic_obstacle_avoidance are not installed: their used parts are assumed as written in /verif/stubs"],
        wall_s=round(time.time() - t0, 2), violations=nviol)
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    nb = [d["contract"] for d in details if d.get("bounded_fallback")]
    print(f"{prop}: {len(cons)} contracts, {ob_ok}/{ob_total} obligations discharged, {len(bounded)} bounded, "
          f"{evals} concrete runs, {nviol} violations, {time.time()-t0:.1f}s")
    for d in details:
        if os.environ.get("PYVC_V"):
            pr = res.get((d["contract"], "prove")) or {}
            flag = "" if d.get("obligations") and d.get("obligations") == d.get("discharged") and not d.get("unsupported") else " <<<<"
            print(f"   {d['contract']}: {d.get('discharged')}/{d.get('obligations')} paths {d.get('reachable_paths')}/{d.get('paths')} "
                  f"wall {d.get('wall_s')} search {d.get('bounded_search_search')} {str(d.get('unsupported') or '')[:700]}{flag}")
            for f in (pr.get("fails") or [])[:6]:
                print("        FAIL", f[0], f[1], f[2][:300])
            for k in ("search", "search2"):
                v = (res.get((d["contract"], k)) or {}).get("violation")
                if v:
                    print("        INPUT", v["obligation"], v["detail"], json.dumps(v["inputs"])[:600])
            if pr.get("violation"):
                print("        MODEL-INPUT", json.dumps(pr["violation"])[:700])
        elif d.get("bounded_fallback"):
            print("   bounded fallback:", d["contract"], str(d["unsupported"])[:200])
    return 1 if nviol else 0


def replay_file(path):
    setup()
    import numpy as np
    from .contract import ConS
    d = json.load(open(path))
    con = [c for c in load_contracts(d["property"]) if c.id == d["contract"]][0]
    if d["inputs"] is None:
        print("no failing input recorded; failed obligation:", d["obligation"], d["detail"])
        return 1
    S = ConS(np.random.default_rng(0), d["inputs"])
    r = run_concrete(con, S)
    print("inputs:", d["inputs"])
    print("result:", r)
    return 1 if r not in (None, "skip") else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay_file(sys.argv[2]))
    try:
        rc = main()
    except SystemExit:
        raise
    sys.stdout.flush()
    sys.exit(rc)
