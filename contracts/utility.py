"""utility.py, nll.py helpers"""
from dv.api import *
from templatefitter import utility as U


def spd_like(h, name, n):
    """square matrix with positive diagonal"""
    return h.array(name, n, n, fact=lambda i, j, v: ir.implies(eq(i, j), lt(0, v)))


@contract("C04", targets=["utility.cov2corr"])
def cov2corr(h):
    n = h.int("n", lo=1)
    cov = spd_like(h, "cov", n)
    before = h.snapshot(cov)
    r = h.call(U.cov2corr, cov)
    h.elements("correlation", r, (n, n), lambda i, j: cov.get(i, j) / (sqrt(cov.get(i, i)) * sqrt(cov.get(j, j))))
    h.unchanged("argument", before)
    h.reachable()


@contract("C05", targets=["utility.get_systematic_cov_mat"])
def systematic(h):
    n = h.int("n", lo=1)
    nom, up, down = [h.array(x, n) for x in ("nom", "up", "down")]
    before = [h.snapshot(a) for a in (nom, up, down)]
    r = h.call(U.get_systematic_cov_mat, nom, up, down)

    def d(i):
        return ite(lt(up.get(i), down.get(i)), -1, 1) * (ir.absval(nom.get(i) - up.get(i)) + ir.absval(nom.get(i) - down.get(i))) / 2
    h.elements("outer product", r, (n, n), lambda i, j: d(i) * d(j))
    for b, s in zip(before, "nud"):
        h.unchanged("argument " + s, b)
    h.reachable()
