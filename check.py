"""Check of one property: check.py <id> [quick|thorough] [--replay FILE]

1. the deductive verifier (dv/, contracts/) proves the contracts of the
   functions the property depends on, from /repo's current source;
2. the run-time contracts of the same property are evaluated on generated
   inputs (bounded); what they find is confirmed in a fresh process and
   reported with the failing input;
3. an obligation that is refuted or not accepted is reported as well, without
   failing input if 2 found none.  Code the verifier cannot process (reported
   as undecided) is covered by the bounded part only, and the evidence then
   no longer claims a proof.
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

MODULE = dict(C01="hists", C02="hists", C03="templ", C04="templ", C05="templ", C06="templ",
              C07="model", C08="model", C09="model", C10="model", C11="model", C12="model", C13="model",
              C14="mini", C15="mini", C16="mini", C17="mini", C18="mini", C19="misc", C20="misc",
              C21="legacy", C22="model", C23="model")
# scenarios of the run-time contracts (quick, thorough) and seconds per worker
COUNT = dict(C16=(400, 6000), C17=(160, 2400), C18=(96, 1200), C15=(3000, 60000))
DEFAULT = (3000, 60000)
SECONDS = dict(quick=30, thorough=400)
WORKERS = 8


def scratch():
    d = tempfile.mkdtemp(prefix="verif-")
    os.environ["MPLCONFIGDIR"] = os.path.join(d, "mpl")
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(d, "numba")
    os.environ["HOME"] = d
    return d


def run_runtime(prop, tier, seed, log):
    """bounded search with the run-time contracts -> (stats, violations)"""
    n = COUNT.get(prop, DEFAULT)[0 if tier == "quick" else 1]
    secs = SECONDS[tier]
    procs = []
    d = tempfile.mkdtemp(prefix="verif-rt-")
    for w in range(WORKERS):
        out = os.path.join(d, "%d.json" % w)
        err = open(os.path.join(d, "%d.err" % w), "w")
        procs.append((out, err, subprocess.Popen(
            [sys.executable, os.path.join(HERE, "check.py"), prop, "--worker", out, str(seed), str(w), str(WORKERS), str(n), str(secs)],
            stdout=subprocess.DEVNULL, stderr=err)))
    stats = dict(evaluations=0, skipped=0, distinct=set(), samples=[], clauses={})
    viol, errors = [], []
    for out, err, p in procs:
        try:
            p.wait(timeout=secs * 2 + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        err.close()
        try:
            r = json.load(open(out))
        except Exception:
            errors.append("worker ended with %s: %s" % (p.returncode, open(err.name).read()[-600:]))
            continue
        stats["evaluations"] += r["evaluations"]
        stats["skipped"] += r["skipped"]
        stats["distinct"] |= set(r["distinct"])
        stats["samples"] += r["samples"][:1]
        viol += r["violations"]
        errors += r["errors"]
    shutil.rmtree(d, ignore_errors=True)
    stats["distinct"] = len(stats["distinct"])
    stats["samples"] = stats["samples"][:2]
    return stats, viol, errors


def worker(prop, out, seed, w, nw, n, secs):
    import importlib
    import signal
    import traceback
    from runtime import common as C
    C.Rng.hints = harvest()
    K = getattr(importlib.import_module("runtime." + MODULE[prop]), prop)
    r = dict(evaluations=0, skipped=0, distinct=[], samples=[], violations=[], errors=[])
    t0 = time.time()
    per_clause = {}
    for i in range(w, n, nw):
        if time.time() - t0 > secs:
            break
        scn = json.loads(json.dumps(C.jsonable(K.gen(C.Rng("%s-%s-%d" % (prop, seed, i)), i))))
        v = evaluate(K, scn)
        if v == "skip":
            r["skipped"] += 1
        else:
            r["evaluations"] += 1
            r["distinct"].append(hashlib.sha1(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:16])
            if len(r["samples"]) < 1:
                r["samples"].append(scn)
        if isinstance(v, dict):
            k = per_clause.get(v["clause"], 0)
            per_clause[v["clause"]] = k + 1
            if k < 3:
                r["violations"].append(v)
            if len(r["violations"]) >= 6:
                break
    json.dump(r, open(out + ".tmp", "w"))
    os.rename(out + ".tmp", out)


def evaluate(K, scn, limit=90):
    """-> None (held), 'skip', or a description of the violation"""
    import signal
    import traceback
    from runtime import common as C

    class Late(BaseException):
        pass

    def alarm(*_):
        raise Late()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        with C.quiet():
            K.check(json.loads(json.dumps(scn)))
        return None
    except C.Skip:
        return "skip"
    except C.Violated as e:
        return dict(clause=e.clause, detail=e.detail, scenario=scn)
    except Late:
        return dict(clause="terminates", detail="no result within %d s" % limit, scenario=scn)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return dict(clause="raises", detail="%s: %s at %s" % (type(e).__name__, str(e)[:200], "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])), scenario=scn)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def harvest():
    """numeric constants of the code under test: values worth trying"""
    import ast
    vals = set()
    for base, dirs, files in os.walk(os.path.join(REPO, "templatefitter")):
        for f in files:
            if f.endswith(".py"):
                try:
                    tree = ast.parse(open(os.path.join(base, f)).read())
                except SyntaxError:
                    continue
                for nd in ast.walk(tree):
                    if isinstance(nd, ast.Constant) and isinstance(nd.value, (int, float)) and not isinstance(nd.value, bool):
                        v = float(nd.value)
                        if v not in (0.0, 1.0) and abs(v) < 1e12:
                            vals |= {v, -v}
    return tuple(sorted(vals))


def reconfirm(prop, v):
    """does the violation show up again in a fresh process?"""
    d = tempfile.mkdtemp(prefix="verif-re-")
    f = os.path.join(d, "v.json")
    json.dump(dict(property=prop, kind="runtime", scenario=v["scenario"]), open(f, "w"))
    try:
        p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop, "--replay", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=200)
        return p.returncode == 1
    except subprocess.TimeoutExpired:
        return False
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(prop, path):
    import importlib
    r = json.load(open(path))
    if r.get("kind") == "deductive":
        from dv import run as D
        return D.replay(prop, r)
    K = getattr(importlib.import_module("runtime." + MODULE[prop]), prop)
    v = evaluate(K, r["scenario"])
    if isinstance(v, dict):
        print("violated: %s: %s" % (v["clause"], v["detail"]))
        return 1
    print("not violated" if v is None else "outside the precondition")
    return 0


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.md")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                out.append(line[len("known: property=%s " % prop):].strip())
    return out


def main(argv):
    prop = argv[0]
    if "--worker" in argv:
        k = argv.index("--worker")
        return worker(prop, argv[k + 1], argv[k + 2], *[int(x) for x in argv[k + 3:k + 7]])
    if "--replay" in argv:
        d = scratch()
        try:
            return replay(prop, argv[argv.index("--replay") + 1])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    tier = "thorough" if "thorough" in argv[1:] else "quick" if "quick" in argv[1:] else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    d = scratch()
    t0 = time.time()
    log = []
    try:
        ded = None
        try:
            from dv import run as D
        except ImportError:
            D = None
        if D is not None:
            ded = D.verify(prop, tier, seed, time.time() + (240 if tier == "quick" else 900))
        stats, viol, errors = run_runtime(prop, tier, seed, log)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    status, lines = 0, []
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rep = os.path.join(HERE, "evidence", "replay_%s.json" % prop)
    confirmed = None
    for v in sorted(viol, key=lambda v: len(json.dumps(v["scenario"])))[:6]:
        if reconfirm(prop, v):
            confirmed = v
            break
    if confirmed:
        v = dict(property=prop, kind="runtime", **confirmed)
        if ded is not None:
            v["failed_obligations"] = ded["failed"][:10]
        json.dump(v, open(rep, "w"), indent=1)
        print("violated clause: %s: %s" % (v["clause"], v["detail"]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, rep))
        status = 1
    elif ded is not None and (ded["refuted"] or ded["undischarged"]):
        fs = ded["refuted"] + ded["undischarged"]
        json.dump(dict(property=prop, kind="deductive", failed=fs[:10]), open(rep, "w"), indent=1)
        for f in fs[:5]:
            print("failed obligation (%s): %s" % (f["status"], f["obligation"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rep))
        status = 1
    elif errors and not stats["evaluations"]:
        print("error: " + errors[0])
        status = 2
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    cov = dict(evaluations=stats["evaluations"], distinct_nontrivial=stats["distinct"],
               rule="run-time contracts on generated scenarios (bounded); non-trivial: the scenario satisfies the precondition and every clause was evaluated; distinct by hash of the scenario",
               samples=stats["samples"] or ["none"], skipped=stats["skipped"])
    level = "exploration"
    assumptions = ["run-time contracts cover only the generated scenarios"]
    if ded is not None:
        level, cov, assumptions = D.evidence(prop, ded, cov)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=1 if status == 1 else 0)
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as fh:
        json.dump(ev, fh, indent=1)
    for e in errors[:3]:
        print("note: " + e[:300])
    if ded is not None:
        print(D.summary(ded))
    print("%s run-time contracts: %d scenarios evaluated, %d outside the precondition, %.0f s" % (prop, stats["evaluations"], stats["skipped"], time.time() - t0))
    for l in lines:
        print(l)
    if status == 0:
        print("OK property=%s" % prop)
    return status


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
