"""soundness checks of the verifier on small functions
   /opt/venv/bin/python -W ignore selftest/run.py"""
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
os.environ["VERIF_REPO"] = here
sys.path[:0] = [here, os.path.dirname(here)]
from dv.api import *          # noqa
from dv import run, interp            # noqa
import sample                 # noqa


@contract("true.arrays")
def _(h):
    n = h.int("n", lo=1)
    r = h.call(sample.arrays, n)
    i = h.index("i", n)
    h.elements("a", h.call(sample.item, r, i), (3,), lambda k: ite(eq(k, 1), i, 0))


@contract("false.arrays")
def _(h):
    n = h.int("n", lo=1)
    r = h.call(sample.arrays, n)
    i = h.index("i", n)
    h.elements("a", h.call(sample.item, r, i), (3,), lambda k: 0)


@contract("true.objects")
def _(h):
    n = h.int("n", lo=1)
    r = h.call(sample.objects, n)
    i = h.index("i", n)
    o = h.call(sample.item, r, i)
    h.scalar("x", h.get(o, "x"), i)
    h.elements("y", h.get(o, "y"), (2,), lambda k: ite(eq(k, 0), i, 0))


@contract("false.objects")
def _(h):
    n = h.int("n", lo=1)
    r = h.call(sample.objects, n)
    i = h.index("i", n)
    h.scalar("x", h.get(h.call(sample.item, r, i), "x"), n - 1)


@contract("true.listed")
def _(h):
    n = h.int("n", lo=1)
    r = h.call(sample.listed, n)
    i = h.index("i", n)
    o = h.call(sample.item, r, i)
    h.scalar("x", h.get(o, "x"), i)
    h.scalar("l", h.call(sample.item, h.get(o, "l"), 0), i + 1)


@contract("false.aliased")
def _(h):
    n = h.int("n", lo=2)
    r = h.call(sample.aliased, n)
    i = h.index("i", n)
    h.elements("a", h.call(sample.item, r, i), (3,), lambda k: ite(eq(k, 1), i, 0))


@contract("true.last")
def _(h):
    n = h.int("n", lo=1)
    h.scalar("x", h.call(sample.last, n), n - 1)


@contract("true.last_empty")
def _(h):
    n = h.int("n", lo=0)
    h.scalar("x", h.call(sample.last, n), n - 1)


@contract("false.last")
def _(h):
    n = h.int("n", lo=0)
    h.scalar("x", h.call(sample.last, n), ite(eq(n, 0), 0, n - 1))


@contract("true.backwards")
def _(h):
    n = h.int("n", lo=1)
    r = h.call(sample.backwards, n)
    i = h.index("i", n)
    h.scalar("even", h.call(sample.item, r, 2 * i), i - n + 1)
    h.scalar("odd", h.call(sample.item, r, 2 * i + 1), n - 1 - i)


@contract("false.backwards")
def _(h):
    n = h.int("n", lo=1)
    r = h.call(sample.backwards, n)
    i = h.index("i", n)
    h.scalar("even", h.call(sample.item, r, 2 * i), n - 1 - i)


@contract("true.backwards2")
def _(h):
    n = h.int("n", lo=1)
    r = h.call(sample.backwards2, n)
    i = h.index("i", n)
    h.scalar("element", h.call(sample.item, r, i), 2 * (n - 1 - i))


def rebound(kind, fn, value):
    @contract(kind + "." + fn.__name__)
    def _(h):
        n = h.int("n", lo=0 if fn is not sample.rebound_none else 1)
        m = h.int("m", lo=1)
        a = h.array("a", m)
        h.elements("sum", h.call(fn, a, n), (m,), lambda x: value(n, h.values("a", x)))


rebound("true", sample.rebound, lambda n, a: a * summ(n, lambda i: i))
rebound("false", sample.rebound, lambda n, a: a * summ(n, lambda i: i + 1))
rebound("true", sample.rebound_none, lambda n, a: a * (1 + summ(n, lambda i: i)))
rebound("false", sample.rebound_none, lambda n, a: a * summ(n, lambda i: i))
rebound("false", sample.rebound_alias, lambda n, a: 0 * a)


@contract("true.rebound_zero")
def _(h):
    n = h.int("n", lo=1)
    m = h.int("m", lo=1)
    a = h.array("a", m)
    h.elements("sum", h.call(sample.rebound_zero, a, n), (m,), lambda x: h.values("a", x) * summ(n, lambda i: i + 1))


@contract("false.rebound_scalar_seen")
def _(h):
    n = h.int("n", lo=1)
    m = h.int("m", lo=1)
    h.scalar("k", h.call(sample.rebound_scalar_seen, h.array("a", m), n), n)


@contract("true.rebound_scalar_seen")
def _(h):
    n = h.int("n", lo=1)
    m = h.int("m", lo=1)
    h.scalar("k", h.call(sample.rebound_scalar_seen, h.array("a", m), n), n - 1)


def offsets(h):
    n = h.int("n", lo=1)
    a = h.array("a", summ(n, lambda i: i + 1))
    r = h.call(sample.offsets, n, a)
    i = h.index("i", n)
    return a, h.call(sample.item, r, i), i


@contract("true.offsets")
def _(h):
    a, b, i = offsets(h)
    h.elements("window", b, (i + 1,), lambda k: a.get(summ(i, lambda j: j + 1) + k))


@contract("false.offsets")
def _(h):
    a, b, i = offsets(h)
    h.elements("window", b, (i + 1,), lambda k: a.get(summ(i, lambda j: j + 1) + k + 1))


@contract("false.offsets_bad")
def _(h):
    n = h.int("n", lo=1)
    r = h.call(sample.offsets_bad, n)
    h.scalar("o", h.call(sample.item, r, h.index("i", n)), 0)


def texts(h):
    i, s = h.int("i", lo=0), h.text("s")
    r = h.call(sample.texts, i, s)
    return s, i, [h.call(sample.item, r, k) for k in range(6)]


@contract("true.texts")
def _(h):
    s, i, r = texts(h)
    for t in r:
        h.ensure("text", eq(t, interp.cat(s, "_", i)))


@contract("false.texts")
def _(h):
    s, i, r = texts(h)
    for t in r[:5]:
        h.ensure("text", eq(t, interp.cat(s, "-", i)))


@contract("false.text_padded")
def _(h):
    i, s = h.int("i", lo=0), h.text("s")
    h.ensure("text", eq(h.call(sample.text_padded, i, s), interp.cat(s, "_", i)))


def selected(h, fn):
    n = h.int("n", lo=1)
    a, b = h.array("a", n), h.array("b", n)
    r = h.call(fn, a, b)
    h.elements("quotients", r, (n,), lambda k: ite(eq(b.get(k), 0), 7, a.get(k) / ite(eq(b.get(k), 0), 1, b.get(k))))


@contract("true.selected")
def _(h):
    selected(h, sample.selected)


@contract("false.selected_wrong")
def _(h):
    selected(h, sample.selected_wrong)


@contract("true.selected_in_place")
def _(h):
    n = h.int("n", lo=1)
    a = h.array("a", n)
    old = a.body()
    from dv import ir, core
    r = h.call(sample.selected_in_place, a)
    h.elements("roots", r, (n,), lambda k: (lambda x: ite(x > 2, ir.sqrt(x * 3), x))(ir.subst(old, {core.PH[0]: ir.poly(k)})))


def constrained(h, fn):
    n = h.int("n", lo=2)
    x0, x = h.array("x0", n), h.array("x", n)
    r = h.call(fn, n, x0)
    k = h.index("k", n)
    h.scalar("constraint", h.call(sample.constrained, r, k, x), x.get(k) - x0.get(k))


for _k, _n in [("false", "late"), ("true", "factory"), ("true", "nested"), ("true", "partial"), ("false", "shared")]:
    contract("%s.constraints_%s" % (_k, _n))(lambda h, f=getattr(sample, "constraints_" + _n): constrained(h, f))


bad = []
for c in [c for cs in REGISTRY.values() for c in cs]:
    r = run.run_contract(c, 1e18)
    st = [o["status"] for o in r["obligations"]]
    proved = bool(not r["unsupported"] and st and all(s == "proved" for s in st))
    name = c.props[0]
    print(name, st, r["unsupported"])
    if proved != (not name.startswith("false.")):
        bad.append(name)
print("WRONG: %s" % bad if bad else "as expected")
sys.exit(bool(bad))
