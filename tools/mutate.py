"""mutate.py: systematic small changes of the code, to find gaps of the checks

   mutate.py list FILE...                      number of mutants per file
   mutate.py run OUT.jsonl SEED COUNT FILE...  samples mutants; those that pass
       the test suite are given to the bounded part of the mapped properties
       and, if that is silent, to the deductive part
"""
import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import warnings
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter("ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PROPS = {
    "histograms/hist1d.py": "C01 C02", "histograms/hist2d.py": "C01 C02", "histograms/abstract_hist.py": "C01 C02", "histograms/hist_utils.py": "C02 C01",
    "templates/abstract_template.py": "C03 C04 C06 C08", "templates/template1d.py": "C03 C04 C05 C23", "templates/template2d.py": "C03 C04 C05 C23",
    "templates/channel.py": "C07 C08 C10 C11 C13 C22 C23 C09", "templates/multi_channel_template.py": "C07 C08 C09 C10 C11 C13",
    "minimizer.py": "C14 C15", "fitter.py": "C16 C17", "toy_study.py": "C18", "stats.py": "C19", "utility.py": "C20 C05 C12 C04 C14",
    "templates_legacy.py": "C21 C23", "nll.py": "C21", "histogram_legacy.py": "C21 C23",
}
SKIPFUNC = re.compile(r"__repr__|__str__|plot_on$^")


class Sites:
    """all (description, apply) pairs of a module"""

    def __init__(self, tree):
        self.out = []
        self.tree = tree
        self.visit(tree, [])

    def add(self, node, what, f):
        self.out.append((getattr(node, "lineno", 0), what, f))

    def visit(self, n, path):
        if isinstance(n, ast.FunctionDef) and SKIPFUNC.search(n.name):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and re.match(r"print|logg", ast.unparse(n.value.func)):
            return
        if isinstance(n, ast.JoinedStr):
            return
        self.mutate(n)
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.Raise) or (isinstance(n, ast.FunctionDef) and c in n.decorator_list) or c is getattr(n, "returns", 0) or c is getattr(n, "annotation", 0):
                continue
            self.visit(c, path)

    def mutate(self, n):
        A = self.add
        if isinstance(n, ast.BinOp):
            for a, b in ((ast.Add, ast.Sub), (ast.Sub, ast.Add), (ast.Mult, ast.Div), (ast.Div, ast.Mult), (ast.MatMult, ast.Mult)):
                if isinstance(n.op, a):
                    A(n, "op", lambda n=n, b=b: setattr(n, "op", b()))
            if isinstance(n.op, (ast.Mult, ast.Add, ast.Sub, ast.Div, ast.Pow)):
                A(n, "left only", lambda n=n: ("replace", n, n.left))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for a, b in ((ast.Lt, ast.LtE), (ast.LtE, ast.Lt), (ast.Gt, ast.GtE), (ast.GtE, ast.Gt), (ast.Eq, ast.NotEq), (ast.NotEq, ast.Eq), (ast.Is, ast.IsNot), (ast.IsNot, ast.Is), (ast.In, ast.NotIn), (ast.NotIn, ast.In)):
                if isinstance(n.ops[0], a):
                    A(n, "cmp", lambda n=n, b=b: setattr(n, "ops", [b()]))
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
                A(n, "falsy", lambda n=n: ("replace", n, n.left if isinstance(n.ops[0], ast.IsNot) else ast.UnaryOp(ast.Not(), n.left)))
        if isinstance(n, ast.BoolOp):
            A(n, "boolop", lambda n=n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            for v in n.values:
                A(n, "part", lambda n=n, v=v: ("replace", n, v))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                A(n, "not", lambda n=n: setattr(n, "value", not n.value))
            elif isinstance(n.value, (int, float)):
                A(n, "+1", lambda n=n: setattr(n, "value", n.value + 1))
                if n.value:
                    A(n, "0", lambda n=n: setattr(n, "value", type(n.value)(0)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            A(n, "unary", lambda n=n: ("replace", n, n.operand))
        if isinstance(n, ast.IfExp):
            A(n, "then", lambda n=n: ("replace", n, n.body))
            A(n, "else", lambda n=n: ("replace", n, n.orelse))
        if isinstance(n, ast.If):
            A(n, "true", lambda n=n: setattr(n, "test", ast.Constant(True)))
            A(n, "false", lambda n=n: setattr(n, "test", ast.Constant(False)))
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) \
                            or isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name):
                        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and re.match(r"print|logg", ast.unparse(s.value.func)):
                            continue
                        A(s, "delete", lambda b=b, i=i: b.__setitem__(i, ast.Pass()))
        if isinstance(n, (ast.For,)):
            A(n, "skip first", lambda n=n: setattr(n, "iter", ast.parse("list(%s)[1:]" % ast.unparse(n.iter), mode="eval").body))
            A(n, "reversed", lambda n=n: setattr(n, "iter", ast.parse("list(%s)[::-1]" % ast.unparse(n.iter), mode="eval").body))
        if isinstance(n, ast.comprehension):
            A(n.iter, "reversed", lambda n=n: setattr(n, "iter", ast.parse("list(%s)[::-1]" % ast.unparse(n.iter), mode="eval").body))
            if n.ifs:
                A(n.iter, "no if", lambda n=n: setattr(n, "ifs", []))
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                A(n.lower, "no lower", lambda n=n: setattr(n, "lower", None))
            if n.upper is not None:
                A(n.upper, "no upper", lambda n=n: setattr(n, "upper", None))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                A(n, "swap args", lambda n=n: n.args.__setitem__(slice(0, 2), [n.args[1], n.args[0]]))
            for k in n.keywords:
                A(n, "no keyword %s" % k.arg, lambda n=n, k=k: n.keywords.remove(k))
            fn = ast.unparse(n.func)
            if re.search(r"\.copy$|deepcopy$|^list$|^tuple$|^float$|^int$|np\.abs$|np\.sqrt$|np\.array$|np\.squeeze$|^abs$|^max$|^min$", fn) and n.args:
                A(n, "drop call", lambda n=n: ("replace", n, n.args[0]))
            if fn.endswith(".copy") and not n.args:
                A(n, "no copy", lambda n=n: ("replace", n, n.func.value))
            for a, b in (("zeros_like", "ones_like"), ("zeros", "ones"), ("ones_like", "zeros_like"), ("ones", "zeros"), ("sum", "mean"), ("any", "all"), ("all", "any"),
                         ("min", "max"), ("max", "min"), ("append", "extend"), ("vstack", "hstack"), ("hstack", "concatenate"), ("diag", "sqrt"), ("isclose", "equal"), ("keys", "values"), ("values", "keys")):
                if fn.split(".")[-1] == a and "." in fn:
                    A(n, b, lambda n=n, b=b: setattr(n.func, "attr", b))
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            A(n, "return None", lambda n=n: setattr(n, "value", ast.Constant(None)))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in ("values", "errors", "bin_counts", "bin_errors_sq", "lower", "upper"):
            other = dict(values="errors", errors="values", bin_counts="bin_errors_sq", bin_errors_sq="bin_counts", lower="upper", upper="lower")[n.attr]
            A(n, "attr " + other, lambda n=n: setattr(n, "attr", other))


class Replace(ast.NodeTransformer):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def visit(self, n):
        if n is self.a:
            return self.b
        return self.generic_visit(n)


def mutant(path, i):
    tree = ast.parse(open(path).read())
    line, what, f = Sites(tree).out[i]
    r = f()
    if isinstance(r, tuple) and r and r[0] == "replace":
        tree = Replace(r[1], r[2]).visit(tree)
    ast.fix_missing_locations(tree)
    return line, what, ast.unparse(tree)


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def sh(cmd, timeout, cwd=None, **env):
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=dict(ENV, **env), start_new_session=True)
        out = p.communicate(timeout=timeout)[0].decode(errors="replace")
        return p.returncode, out
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, ""


def one(job):
    f, i, secs = job
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="mut-")
    r = dict(file=f, i=i)
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "build"))
        path = os.path.join(repo, "templatefitter", f)
        base = ast.unparse(ast.parse(open(path).read()))
        r["line"], r["what"], src = mutant(path, i)
        if src == base:
            return dict(r, result="same")
        import difflib
        r["diff"] = [l for l in difflib.unified_diff(base.splitlines(), src.splitlines(), n=0, lineterm="") if l[:1] in "+-" and l[:3] not in ("+++", "---")][:6]
        open(path, "w").write(src)
        rc, out = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], 120, repo, NUMBA_CACHE_DIR=os.path.join(d, "nb"), MPLCONFIGDIR="/tmp/mutmpl")
        if rc != 0:
            return dict(r, result="killed by tests")
        for p in PROPS[f].split():
            o = os.path.join(d, "out.json")
            n = dict(C15=3000, C16=400, C17=160, C18=96).get(p, 3000)
            if os.path.exists(o):
                os.remove(o)
            rc, out = sh([PY, "-W", "ignore", os.path.join(VERIF, "check.py"), p, "--worker", o, "1", "1", "7", str(n), str(secs)], 3 * secs + 120, VERIF, VERIF_REPO=repo, NUMBA_CACHE_DIR=os.path.join(d, "nb"), MPLCONFIGDIR="/tmp/mutmpl")
            try:
                v = json.load(open(o))["violations"]
            except Exception:
                return dict(r, result="bounded", prop=p, clause="worker failed")
            if v:
                return dict(r, result="bounded", prop=p, clause=v[0]["clause"])
        r["deductive"] = {}
        for p in PROPS[f].split():
            rc, out = sh([PY, "-W", "ignore", "-m", "dv.run", p], 500, VERIF, VERIF_REPO=repo, NUMBA_CACHE_DIR=os.path.join(d, "nb"))
            bad = []
            for l in out.splitlines():
                m = re.match(r"(C\d\d) (\S+) .*obligations (\d+)/(\d+)(.*)", l)
                if m and (m.group(3) != m.group(4) or "UNSUPPORTED" in l):
                    bad.append("%s %s/%s%s" % (m.group(2), m.group(3), m.group(4), " U" if "UNSUPPORTED" in l else ""))
            r["deductive"][p] = bad if rc == 0 else bad + ["rc %s" % rc]
            if any(" U" not in b and "rc" not in b for b in bad):
                return dict(r, result="deductive", prop=p, clause=bad[0])
        return dict(r, result="SURVIVED")
    finally:
        shutil.rmtree(d, ignore_errors=True)
        r["t"] = round(time.time() - t0)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for f in sys.argv[2:] or PROPS:
            print(f, len(Sites(ast.parse(open("/repo/templatefitter/" + f).read())).out))
    else:
        out, seed, count = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
        jobs = []
        for f in sys.argv[5:] or PROPS:
            n = len(Sites(ast.parse(open("/repo/templatefitter/" + f).read())).out)
            js = [(f, i, int(os.environ.get("SECS", "15"))) for i in range(n)]
            random.Random(seed).shuffle(js)
            jobs += js[:count]
        done = set()
        if os.path.exists(out):
            done = {(r["file"], r["i"]) for r in map(json.loads, open(out))}
        with ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex, open(out, "a") as g:
            for r in ex.map(one, [j for j in jobs if j[:2] not in done]):
                g.write(json.dumps(r) + "\n")
                g.flush()
