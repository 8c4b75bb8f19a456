"""small functions for checking the verifier itself: true contracts must be
proved, false ones must not"""
import functools

import numpy as np


class B:
    pass


def arrays(n):
    out = []
    for i in range(n):
        a = np.zeros(3)
        a[1] = i
        out.append(a)
    return out


def objects(n):
    out = {}
    for i in range(n):
        b = B()
        b.x = i
        b.y = np.zeros(2)
        b.y[0] = i
        out[i] = b
    return out


def listed(n):
    out = []
    for i in range(n):
        b = B()
        b.x = i
        b.l = []
        b.l.append(i + 1)
        out.append(b)
    return out


def aliased(n):
    out = []
    a = np.zeros(3)
    for i in range(n):
        a[1] = i
        out.append(a)
    return out


def running(n):
    s = 0
    out = []
    for i in range(n):
        s += i
        out.append(s)
    return out


def last(n):
    x = -1
    for i in range(n):
        x = i
    return x


def item(s, i):
    return s[i]


def backwards(n):
    r = []
    for i in range(n):
        r.append(i)
        r.append(-i)
    return r[::-1]


def backwards2(n):
    r = list(reversed([2 * i for i in range(n)]))
    r.reverse()
    return r[::-1]


def rebound(a, n):
    """array rebound in each iteration"""
    s = np.zeros(len(a))
    for i in range(n):
        s = s + i * a
    return s


def rebound_none(a, n):
    s = None
    for i in range(n):
        s = a if s is None else s + i * a
    return s


def rebound_zero(a, n):
    s = 0
    for i in range(n):
        s = s + (i + 1) * a
    return s


def rebound_alias(a, n):
    """the first iteration writes the array the caller holds"""
    s = np.zeros(len(a))
    t = s
    for i in range(n):
        s += a
        s = s + a
    return t


def rebound_scalar_seen(a, n):
    s = 0
    k = 0
    for i in range(n):
        k += np.ndim(s)
        s = s + a
    return k


def offsets(n, a):
    """windows found with a running offset"""
    out = []
    o = 0
    for i in range(n):
        out.append(a[o:o + i + 1])
        o = o + i + 1
    return out


def offsets_bad(n, a):
    """the increment differs where a branch is taken"""
    out = []
    o = 0
    for i in range(n):
        if o <= i:
            o += 1
        out.append(o)
    return out


def texts(i, s):
    return ["{}_{}".format(s, i), "{1}_{0}".format(i, s), "{a}_{b:d}".format(a=s, b=i), f"{s}_{i:d}", "%s_%d" % (s, i), s + "_" + str(i)]


def text_padded(i, s):
    return f"{s}_{i:3d}"


def selected(a, b):
    """division where the divisor is not zero"""
    m = b != 0
    r = np.full(len(a), 7.)
    r[m] = a[m] / b[m]
    return r


def selected_wrong(a, b):
    """the mask admits zeros"""
    m = a != 0
    r = np.full(len(a), 7.)
    r[m] = a[m] / b[m]
    return r


def selected_in_place(a):
    m = a > 2
    a[m] *= 3
    a[m] = np.sqrt(a[m])
    return a


def constraints_late(n, x0):
    out = []
    for i in range(n):
        v = x0[i]
        out.append({"fun": lambda x: x[i] - v})
    return out


def constraints_factory(n, x0):
    def keep(i):
        v = x0[i]

        def f(x):
            return x[i] - v
        return f
    out = []
    for i in range(n):
        out.append({"fun": keep(i)})
    return out


def constraints_nested(n, x0):
    def keep(i):
        v = [x0[i]]
        return [lambda x: x[k] - v[0] for k in [i]]
    return [{"fun": keep(i)[0]} for i in range(n)]


def constraints_partial(n, x0):
    def f(x, i, v):
        return x[i] - v
    return [{"fun": functools.partial(f, i=i, v=x0[i])} for i in range(n)]


def constraints_shared(n, x0):
    last = [0]

    def keep(i):
        last[0] = i
        return lambda x: x[last[0]] - x0[i]
    return [{"fun": keep(i)} for i in range(n)]


def constrained(r, k, x):
    return r[k]["fun"](x)
