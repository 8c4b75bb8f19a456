"""Verification of one property: run its contracts, discharge the obligations."""
import importlib
import json
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

from . import ir, core, interp, api          # noqa: E402
from .ir import Unsupported                  # noqa: E402
from .solve import Solver                    # noqa: E402

MODULES = ["utility", "hists", "templates", "params", "model", "assembly", "yields", "data", "minimum", "post", "plots", "legacy", "fit", "fitter", "toys"]


def load():
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, "contracts", m + ".py")):
            importlib.import_module("contracts." + m)


def attempt(solver, o, ms):
    """prove; if that fails look for a counterexample; if there is none try harder"""
    from .refute import refute
    try:
        for step, t in enumerate((ms / 4.0, ms, 4 * ms)):
            solver.limit = time.time() + 3 * t / 1000.0
            st, bk = solver.prove(o.pc, o.goal, t)
            if st == "proved":
                return st, bk
            solver.limit = time.time() + t / 1000.0
            if solver.satisfiable(o.pc, t) is False:
                return "proved", "z3 (infeasible path)"
            if step == 0 and solver.nrefute < 8:
                solver.nrefute += 1
                try:
                    o.counterexample = refute(solver, o, list(solver.axioms), ms / 1000.0)
                except Exception:       # noqa: BLE001
                    o.counterexample = None
                if o.counterexample is not None:
                    return "refuted", "z3+evaluation"
        return st, bk
    finally:
        solver.limit = float("inf")


def opaque(o):
    """does an obligation depend on a text the verifier does not follow?"""
    from . import genloop
    return any(n.startswith("text!") for t in (o.goal,) + tuple(o.pc)
               for n in list(genloop.app_names(t)) + [s.name for s in ir.syms(t)])


def run_contract(c, deadline, ms=4000, verbose=False):
    """-> dict: obligations with their status, problems"""
    t0 = time.time()
    solver = Solver()
    solver.nrefute = 0
    out = dict(contract=c.name, obligations=[], unsupported=[], functions=set(), models=set(), contracts=set(), paths=0, witnesses=0,
               vacuous=[], mode=c.mode)

    def body():
        solver.axioms[:] = []
        h = api.H(solver, c.name)
        try:
            c.fn(h)
            core.ctx().done = True
        except core.Raised as e:
            ctx = core.ctx()
            ctx.func = c.name
            ctx.oblige("raises no exception (%s%s)" % (e.cls.__name__, " in " + e.where if e.where else ""), ir.FALSE, "raise")
            ctx.detail = [str(a) for a in e.xargs]

    def on_path(ctx, outcome):
        out["paths"] += 1
        out["functions"] |= ctx.visited
        out["models"] |= ctx.assumed
        out["contracts"] |= ctx.used
        if outcome == "infeasible" and not ctx.obls:
            return
        pathsat = None
        for o in ctx.obls:
            key = (o.name, o.goal, o.pc)
            if key in seen:
                continue
            seen.add(key)
            t1 = time.time()
            if time.time() > deadline:
                st, bk = "unknown", "out of time"
            else:
                st, bk = attempt(solver, o, ms)
            if st != "proved" and opaque(o):
                out["unsupported"].append("obligation on a value that is not followed: %s: %s" % (o.func, o.name))
                continue
            o.status, o.backend, o.time = st, bk, time.time() - t1
            out["obligations"].append(dict(name="%s: %s" % (o.func, o.name), kind=o.kind, status=st, backend=bk, time=round(o.time, 4),
                                           goal=None if st == "proved" else ir.show(o.goal)[:1500],
                                           pc=None if st == "proved" else [ir.show(p)[:300] for p in o.pc][:40]))
            if getattr(o, "counterexample", None) is not None:
                out["obligations"][-1]["counterexample"] = o.counterexample
        for label, pc in getattr(ctx, "witness", ()):
            s = solver.satisfiable(pc, 2000)
            if s is False:
                dead.append(label)
            else:
                alive.add(label)
    seen = set()
    dead, alive = [], set()
    try:
        core.explore(body, solver, on_path)
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        out["unsupported"].append(str(e))
        if verbose:
            traceback.print_exc(limit=-int(os.environ.get("DV_TB", "4")))
    except (RecursionError, AssertionError, KeyError, AttributeError, TypeError, IndexError, ValueError, ZeroDivisionError) as e:
        out["unsupported"].append("verifier: %s: %s" % (type(e).__name__, e))
        if verbose:
            traceback.print_exc(limit=-int(os.environ.get("DV_TB", "6")))
    finally:
        core.Ctx.cur = None
    out["vacuous"] = [l for l in dead if l not in alive]
    out["witnesses"] = len(alive)
    out["time"] = time.time() - t0
    out["solver_time"] = sum(o["time"] for o in out["obligations"]) + solver.tquick
    for k in ("functions", "models", "contracts"):
        out[k] = sorted(out[k])
    return out


MEMORY = 4 << 30         # address space of the process of one contract


def _job(job):
    name, prop, deadline, ms = job
    c = [c for c in api.REGISTRY[prop] if c.name == name][0]
    sys.setrecursionlimit(20000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError):
        pass
    try:
        r = run_contract(c, deadline, ms)
    except BaseException as e:       # noqa: BLE001
        return dict(contract=name, obligations=[], unsupported=["verifier: %s: %s" % (type(e).__name__, e)], functions=[], models=[], contracts=[],
                    paths=0, witnesses=0, vacuous=[], time=0.0, solver_time=0.0, mode=c.mode, targets=list(c.targets))
    r["targets"] = list(c.targets)
    return r


def verify(prop, tier, seed, deadline, ms=4000):
    """discharge all contracts of a property, in parallel"""
    import multiprocessing as mp
    load()
    t0 = time.time()
    cs = api.REGISTRY.get(prop, [])
    jobs = [(c.name, prop, deadline, ms if tier == "quick" else 4 * ms) for c in cs]
    res = []
    if jobs:
        with mp.get_context("fork").Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
            pend = [(j, pool.apply_async(_job, (j,))) for j in jobs]
            for j, p in pend:
                try:
                    res.append(p.get(max(1.0, deadline + 60 - time.time())))
                except mp.TimeoutError:
                    res.append(dict(contract=j[0], obligations=[], unsupported=["out of time"], functions=[], models=[], contracts=[], paths=0,
                                    witnesses=0, vacuous=[], time=0.0, solver_time=0.0, mode="proof", targets=[]))
            pool.terminate()
    failed, refuted = [], []
    for r in res:
        for o in r["obligations"]:
            if o["status"] != "proved":
                e = dict(contract=r["contract"], obligation=o["name"], kind=o["kind"], goal=o["goal"], status=o["status"], backend=o["backend"], path=o["pc"])
                failed.append(e)
                if "counterexample" in o:
                    e = dict(e, counterexample=o["counterexample"])
                    refuted.append(e)
    # an obligation the back ends did not accept within their limits (running out of time altogether says nothing)
    open_ = [f for f in failed if f["status"] not in ("refuted",) and f.get("backend") != "out of time"] if level_of(prop) == "proof" else []
    return dict(prop=prop, results=res, failed=failed, refuted=refuted, undischarged=open_, wall=time.time() - t0)


TRUSTED = [
    "the verifier dv/ (symbolic executor over the Python AST read from /repo on this run, normal form of terms in dv/ir.py, library models in dv/npmodel.py)",
    "z3 4.x and cvc5 1.1 (Python packages)",
    "CPython semantics of the subset used; library functions behave as their models (listed under assumptions)",
]
STANDING = [
    "floating point numbers are treated as exact real numbers, integers as unbounded; inputs contain no NaN or infinity",
    "arrays given as inputs do not overlap unless they are the same array",
    "exceptions from resource exhaustion are not considered",
]


def counts(ded):
    n = sum(len(r["obligations"]) for r in ded["results"])
    k = sum(o["status"] == "proved" for r in ded["results"] for o in r["obligations"])
    return n, k


def evidence(prop, ded, cov):
    n, k = counts(ded)
    res = ded["results"]
    backs = {}
    for r in res:
        for o in r["obligations"]:
            if o["status"] == "proved":
                backs[o["backend"]] = backs.get(o["backend"], 0) + 1
    bad = [r for r in res if r["unsupported"] or r["vacuous"] or not r["obligations"]]
    complete = bool(res) and not bad and n == k
    partial = level_of(prop) != "proof"
    bounded = dict(cov, label="bounded: run-time contracts evaluated on generated scenarios, never counted as proved")
    fns = sorted({f for r in res for f in r["functions"] if f.startswith("templatefitter")} | {f for r in res for f in r["functions"]})
    models = sorted({m for r in res for m in r["models"]})
    out = dict(
        obligations=n, discharged=k, checker_cmd="bash run.sh %s quick" % prop, trusted_base=TRUSTED,
        back_ends=backs, solver_s=round(sum(r["solver_time"] for r in res), 2), verifier_wall_s=round(ded["wall"], 2),
        functions_under_contract=fns,
        contracts=[dict(name=r["contract"], targets=r["targets"], paths=r["paths"], obligations=len(r["obligations"]),
                        discharged=sum(o["status"] == "proved" for o in r["obligations"]), reachability_witnesses=r["witnesses"],
                        seconds=round(r["time"], 2), undecided=r["unsupported"] + ["vacuous: %s" % v for v in r["vacuous"]]) for r in res],
        failed=[dict(obligation=f["obligation"], contract=f["contract"], status=f["status"]) for f in ded["failed"][:20]],
        runtime_contracts=bounded)
    assumptions = list(STANDING) + ["library model: %s" % m for m in models] + ["run-time contracts (bounded part) cover only the generated scenarios"]
    note = LEVELS().get(prop, {}).get("open")
    if note:
        assumptions.append("not under deductive contract: " + note)
    if complete and not partial:
        return "proof", out, assumptions
    out.update(evaluations=cov["evaluations"], distinct_nontrivial=cov["distinct_nontrivial"], rule=cov["rule"], samples=cov["samples"])
    return "exploration", out, assumptions


def LEVELS():
    f = os.path.join(HERE, "tools", "levels.json")
    return json.load(open(f)) if os.path.exists(f) else {}


def level_of(prop):
    return LEVELS().get(prop, {}).get("level", "exploration")


def summary(ded):
    n, k = counts(ded)
    und = ["%s (%s)" % (r["contract"], "; ".join(r["unsupported"])[:160]) for r in ded["results"] if r["unsupported"]]
    vac = [r["contract"] for r in ded["results"] if r["vacuous"]]
    s = "%s contracts: %d, obligations discharged: %d of %d, %.1f s" % (ded["prop"], len(ded["results"]), k, n, ded["wall"])
    for f in ded["failed"][:8]:
        s += "\n  not discharged: %s" % f["obligation"]
    if und:
        s += "\n  undecided (decided by the bounded part only): " + ", ".join(und)
    if vac:
        s += "\n  assumptions contradictory: " + ", ".join(vac)
    return s


def replay(prop, r):
    """re-run the contracts named in a replay file"""
    load()
    names = {f["contract"] for f in r["failed"]}
    ded = verify(prop, "quick", 1, time.time() + 240)
    bad = [f for f in ded["refuted"] + ded["undischarged"] if f["contract"] in names]
    for f in bad:
        print("%s obligation: %s %s" % (f["status"], f["obligation"], f.get("counterexample", "")))
    if not bad:
        print("all obligations discharged")
    return 1 if bad else 0


def report(c):
    sys.setrecursionlimit(20000)
    r = run_contract(c, time.time() + 600, 4000, True)
    n = len(r["obligations"])
    k = sum(o["status"] == "proved" for o in r["obligations"])
    out = ["%-40s paths %3d  obligations %d/%d  %.2f s (solver %.2f s)%s%s" % (
        c.name, r["paths"], k, n, r["time"], r["solver_time"], "  UNSUPPORTED " + "; ".join(r["unsupported"]) if r["unsupported"] else "",
        "  VACUOUS %s" % r["vacuous"] if r["vacuous"] else "")]
    for o in r["obligations"]:
        if o["status"] != "proved":
            out.append("    %s [%s %s %s]\n        %s" % (o["name"], o["kind"], o["status"], o["backend"], o["goal"][:600]))
            if "counterexample" in o:
                out.append("        counterexample " + str(o["counterexample"])[:1000])
            if os.environ.get("DV_PC"):
                out.extend("          | " + q for q in o["pc"])
    return "\n".join(out)


def _report(job):
    p, i = job
    return report(api.REGISTRY[p][i])


def main(names):
    import multiprocessing as mp
    load()
    jobs = [(p, i) for p, cs in sorted(api.REGISTRY.items()) for i, c in enumerate(cs) if p in names or c.name in names or not names]
    if len(jobs) == 1:
        print(jobs[0][0], _report(jobs[0]))
        return
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for (p, _), r in zip(jobs, pool.imap(_report, jobs)):
            print(p, r, flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
