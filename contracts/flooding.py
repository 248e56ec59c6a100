"""C10 flooding correction."""
from .common import *

EIGHT = [k for k in range(9) if k != 4]


def nbrs(i, j):
    return [(i + NB[k][0], j + NB[k][1]) for k in EIGHT]


def ongrid(c, a, b, L, W):
    return c.And(0 <= a, a < L, 0 <= b, b < W)


# order of the eight neighbours in the shifted arrays
SHIFT = [(0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1), (1, 0), (1, 1)]


@goal("C10", "neighbour_array", n=150)
def neighbour_array(c):
    """build_weight_array: slot k of a cell is the value of its k-th neighbour, the
    nearest border cell standing in for neighbours outside the grid"""
    L, W = dims(c, 2)
    m = c.base()
    a = c.arr("a", (L, W), c.choice("dt", ["f", "i"]))
    g = c.snap(a)
    r = c.call(m.build_weight_array, a, fix_edges=True)
    sh = c.shape(r)
    c.prove("shape", c.And(c.eq(sh[0], 8), c.eq(sh[1], L), c.eq(sh[2], W)))
    c.forall("neighbour", (L, W), lambda i, j: {
        "%d" % k: c.eq(c.at(r, k, i, j), g(clampi(c, i + di, L), clampi(c, j + dj, W))) for k, (di, dj) in enumerate(SHIFT)})
    c.forall("input-unchanged", (L, W), lambda i, j: c.eq(c.at(a, i, j), g(i, j)))


def rule(c, slots, eta, cur):
    """(flooded?, new stage) from the (wet?, stage) pairs around a dry cell"""
    any_, has, best = False, False, cur
    for w, s in slots:
        any_ = c.Or(any_, c.And(w, s > eta))
        best = c.ite(w, c.ite(c.And(has, best > s), best, s), best)
        has = c.Or(has, w)
    return any_, best


def around(c, S, wet, i, j, L, W):
    """the neighbours on the grid"""
    out = []
    for a, b in nbrs(i, j):
        if c.case(ongrid(c, a, b, L, W)):
            out.append((wet(a, b), S(a, b)))
    return out


def _inv_flood(c, e):
    st = e["self"].stage
    k = e.k
    L, W, wet, S, slots, E = c.ghost

    def f(a, b):
        fl, best = rule(c, slots(a, b), E(a, b), S(a, b))
        return c.eq(c.at(st, a, b), c.ite(c.And(e.rank(a, b) < k, c.Not(wet(a, b)), fl), best, S(a, b)))
    return c.FA((L, W), f, on=st)


@goal("C10", "flooding_correction", n=400, budget=200, loops={"flooding_correction": [Loop(1, "flooded", _inv_flood)]})
def flooding(c):
    L, W = dims(c)
    m = model(c, L, W)
    stage, depth, eta = c.arr("stage", (L, W), pts=[0, -1]), c.arr("depth", (L, W), lo=0, pts=[0, 0.05]), c.arr("eta", (L, W), pts=[0, -1])
    c.set(m, stage=stage, depth=depth, eta=eta)
    S, D, E = c.snap(stage), c.snap(depth), c.snap(eta)
    wet = lambda a, b: D(a, b) > m.dry_depth
    if c.sym:
        # the values of the eight slots around a cell (contract of build_weight_array, C10.neighbour_array)
        sw = lambda k, i, j: c.uf("slot_wet%d" % k, [i, j], "B")
        ss = lambda k, i, j: c.uf("slot_stage%d" % k, [i, j])
        slots = lambda i, j: [(sw(k, i, j), ss(k, i, j)) for k in range(8)]

        def bwa(self, array, fix_edges=False, normalize=False):
            if fix_edges is not True or normalize is not False:
                raise Skip("other use of build_weight_array")
            g = c.snap(array)
            if c.dtype(array) == "f":
                c.forall("slots-of-stage", (L, W), lambda i, j: c.eq(g(i, j), S(i, j)))
                return c.mk((8, L, W), lambda k, i, j: c.pick(k, [ss(n, i, j) for n in range(8)]))
            c.forall("slots-of-wet-mask", (L, W), lambda i, j: c.eq(g(i, j), c.num(wet(i, j))))
            return c.mk((8, L, W), lambda k, i, j: c.pick(k, [c.num(sw(n, i, j)) for n in range(8)]), "i")
        c.contract("build_weight_array", bwa)
    else:
        slots = lambda i, j: [(wet(a, b), S(a, b)) for a, b in nbrs(i, j) if 0 <= a < L and 0 <= b < W]
    c.ghost = (L, W, wet, S, slots, E)
    c.call(m.flooding_correction)

    def post(i, j):
        fl, best = rule(c, slots(i, j), E(i, j), S(i, j))
        new = c.at(m.stage, i, j)
        return {
            "raised-to-highest-wet-neighbour": c.Implies(c.And(c.Not(wet(i, j)), fl), c.eq(new, best)),
            "others-unchanged": c.Implies(c.Or(wet(i, j), c.Not(fl)), c.eq(new, S(i, j))),
            "frame": c.And(c.eq(c.at(m.depth, i, j), D(i, j)), c.eq(c.at(m.eta, i, j), E(i, j))),
        }

    c.forall("stage", (L, W), post)


@goal("C10", "slots_are_neighbours", conc=False)
def slots_lemma(c):
    """lemma: for a dry cell, the rule over the eight edge-padded slots is the rule over
    the neighbours that lie on the grid (border stand-ins are neighbours or the cell itself)"""
    L, W = dims(c, 2)
    S, D = c.snap(c.arr("stage", (L, W))), c.snap(c.arr("depth", (L, W), lo=0))
    dry = c.real("dry", lo=0)
    eta = c.real("eta")
    i, j = c.int("i", 0), c.int("j", 0)
    c.assume(i < L, j < W)
    wet = lambda a, b: D(a, b) > dry
    c.assume(c.Not(wet(i, j)))
    for b in (i == 0, i == L - 1, j == 0, j == W - 1):
        c.case(b)

    def cl(v, n):
        if c.case(v < 0):
            return 0
        if c.case(v >= n):
            return n - 1
        return v
    pad = [(cl(i + di, L), cl(j + dj, W)) for di, dj in SHIFT]
    f1, b1 = rule(c, [(wet(a, b), S(a, b)) for a, b in pad], eta, S(i, j))
    f2, b2 = rule(c, around(c, S, wet, i, j, L, W), eta, S(i, j))
    c.prove("same-cells-flood", c.Iff(f1, f2))
    c.prove("same-stage", c.Implies(f1, c.eq(b1, b2)))
