"""C23 index, padding and direction helpers."""
from .common import *


@goal("C23", "unravel", n=600)
def unravel(c):
    L = c.int("L", 1, None, hint=(1, 6))
    W = c.int("W", 1, None, hint=(1, 6))
    f = c.fn("shared_tools", "custom_unravel")
    g = c.fn("shared_tools", "custom_ravel")
    i = c.int("i", None, None, hint=(-3, 40))
    r, e = c.attempt(f, i, (L, W))
    ok = c.And(0 <= i, i < L * W)
    if e is None:
        c.prove("rejects-out-of-range", ok)
        x, y = r
        c.prove("row-major", c.And(c.eq(x * W + y, i), 0 <= x, x < L, 0 <= y, y < W))
        c.prove("round-trip", c.eq(c.call(g, (x, y), (L, W)), i))
    else:
        c.prove("accepts-in-range", c.Not(ok))
        c.prove("error-type", isinstance(e, IndexError))


@goal("C23", "ravel", n=600)
def ravel(c):
    L = c.int("L", 1, None, hint=(1, 6))
    W = c.int("W", 1, None, hint=(1, 6))
    g = c.fn("shared_tools", "custom_ravel")
    x = c.int("x", None, None, hint=(-2, 8), pts=[0])
    y = c.int("y", None, None, hint=(-2, 8), pts=[0])
    r, e = c.attempt(g, (x, y), (L, W))
    ok = c.And(0 <= x, x < L, 0 <= y, y < W)
    if e is None:
        c.prove("rejects-out-of-range", ok)
        c.prove("row-major", c.eq(r, x * W + y))
    else:
        c.prove("accepts-in-range", c.Not(ok))
        c.prove("error-type", isinstance(e, IndexError))


@goal("C23", "pad", n=150)
def pad(c):
    L = c.int("L", 1, None, hint=(1, 5))
    W = c.int("W", 1, None, hint=(1, 5))
    a = c.arr("a", (L, W), c.choice("dt", ["f", "i"]))
    if c.rarely("exact"):
        a = a * 2.0 ** -30 + 1 if c.dtype(a) == "f" else a + 2 ** 53  # values which a narrower type cannot hold
    s = c.snap(a)
    p = c.call(c.fn("shared_tools", "custom_pad"), a)
    sh = c.shape(p)
    c.prove("shape", c.And(c.eq(sh[0], L + 2), c.eq(sh[1], W + 2)))
    c.forall("edge-padding", (L + 2, W + 2),
             lambda i, j: c.eq(c.at(p, i, j), s(clampi(c, i - 1, L), clampi(c, j - 1, W))))
    c.forall("input-unchanged", (L, W), lambda i, j: c.eq(c.at(a, i, j), s(i, j)))
    if not c.sym:
        c.forall("values-exact", (L + 2, W + 2), lambda i, j: c.at(p, i, j) == s(clampi(c, i - 1, L), clampi(c, j - 1, W)))


@goal("C23", "direction_tables", n=20)
def tables(c):
    L, W = dims(c)
    m = c.base()
    c.set(m, L=L, W=W)
    c.call(m.set_constants)
    for k in range(9):
        di, dj = NB[k]
        d = dist(c, k)
        c.prove("rows-%d" % k, c.And(c.eq(c.at(m.jwalk_flat, k), di), c.eq(c.at(m.jwalk, di + 1, dj + 1), di)))
        c.prove("columns-%d" % k, c.And(c.eq(c.at(m.iwalk_flat, k), dj), c.eq(c.at(m.iwalk, di + 1, dj + 1), dj)))
        c.prove("flat-step-%d" % k, c.And(c.eq(c.at(m.ravel_walk_flat, k), di * W + dj),
                                          c.eq(c.at(m.ravel_walk, di + 1, dj + 1), di * W + dj)))
        c.prove("distance-%d" % k, c.And(c.eq(c.at(m.distances_flat, k), d), c.eq(c.at(m.distances, di + 1, dj + 1), d)))
        c.prove("unit-vector-%d" % k, c.And(
            c.eq(c.at(m.jvec_flat, k) * d, di), c.eq(c.at(m.ivec_flat, k) * d, dj),
            c.eq(c.at(m.jvec, di + 1, dj + 1) * d, di), c.eq(c.at(m.ivec, di + 1, dj + 1) * d, dj)))


@goal("C23", "steps", n=100)
def steps(c):
    m = c.base()
    c.set(m, L=5, W=6)
    c.call(m.set_constants)
    P = c.int("P", 1, None, hint=(1, 12))
    nd = c.arr("dirs", (P,), "i", lo=0, hi=8)
    s = c.snap(nd)
    d, i, j, a = c.call(c.fn("shared_tools", "get_steps"), nd, m.iwalk_flat, m.jwalk_flat)

    def post(p):
        k = s(p)
        t = lambda vals: c.sum([c.ite(k == n, v, 0) for n, v in enumerate(vals)])
        return {"columns": c.eq(c.at(i, p), t([x[1] for x in NB])),
                "rows": c.eq(c.at(j, p), t([x[0] for x in NB])),
                "distance": c.And(c.le(0, c.at(d, p)), c.eq(c.at(d, p) * c.at(d, p),
                                                          t([x[0] * x[0] + x[1] * x[1] for x in NB]))),
                "moved": c.Iff(c.at(a, p), k != 4)}

    c.forall("step", (P,), post)
