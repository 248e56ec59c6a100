"""C11 topographic diffusion."""
from .common import *

EIGHT = [k for k in range(9) if k != 4]


def sweep(c, eta, qs, mult, i, j, L, W):
    """change of one cell in one sweep; neighbours outside the grid count as zero bed and flux"""
    tot = 0
    e0, q0 = eta(i, j), qs(i, j)
    for k in EIGHT:
        a, b = i + NB[k][0], j + NB[k][1]
        on = c.And(0 <= a, a < L, 0 <= b, b < W)
        if c.sym:
            e, q = c.ite(on, eta(a, b), 0), c.ite(on, qs(a, b), 0)
        else:
            e, q = (eta(a, b), qs(a, b)) if on else (0, 0)
        tot = tot + (e - e0) * (q0 + q)
    return mult * tot


def fields(c, L, W):
    m = model(c, L, W)
    c.call(m.set_constants)
    eta = c.arr("eta", (L, W), pts=[0, 1])
    qs = c.arr("qs", (L, W), lo=0, pts=[0])
    ct = c.arr("cell_type", (L, W), "i", vals=CELLS)
    mult = c.real("mult", lo=0, hint=(0, 1))
    c.set(m, eta=eta, qs=qs, cell_type=ct, diffusion_multiplier=mult)
    return m, mult


def _inv_sweeps(c, e):
    m, k = e["self"], e.k
    eta = m.eta
    L, W, E, unfold = c.ghost

    def f(a, b):
        unfold(k, a, b)
        return c.eq(c.at(eta, a, b), E(k, a, b))
    return c.FA((L, W), f, on=eta)


@goal("C11", "sweeps", n=200, budget=120, loops={"topo_diffusion": [Loop(1, "sweeps", _inv_sweeps)]})
def sweeps(c):
    """E(n, i, j): bed after n documented sweeps; the code applies exactly N_crossdiff of them"""
    L, W = dims(c)
    m, mult = fields(c, L, W)
    N = c.int("N_crossdiff", 0, None, hint=(0, 3))
    c.set(m, N_crossdiff=N)
    e0, q0, t0 = c.snap(m.eta), c.snap(m.qs), c.snap(m.cell_type)
    step = lambda eta, i, j: c.ite(c.Or(c.eq(t0(i, j), -2), c.eq(i, 0)), 0, sweep(c, eta, q0, mult, i, j, L, W))
    if c.sym:
        E = lambda n, i, j: c.uf("bed", [n, i, j])

        def unfold(n, i, j):
            prev = lambda a, b: E(n - 1, a, b)
            c.assume(c.Implies(c.eq(n, 0), c.eq(E(n, i, j), e0(i, j))),
                     c.Implies(c.And(n > 0), c.eq(E(n, i, j), prev(i, j) + step(prev, i, j))))
        c.ghost = (L, W, E, unfold)
    else:
        bed = [[e0(i, j) for j in range(W)] for i in range(L)]
        for _ in range(N):
            g = lambda a, b, bed=bed: bed[a][b]
            bed = [[bed[i][j] + step(g, i, j) for j in range(W)] for i in range(L)]
        E = lambda n, i, j: bed[i][j]
    c.call(m.topo_diffusion)

    def post(i, j):
        return {"bed": c.eq(c.at(m.eta, i, j), E(N, i, j)),
                "frame": c.And(c.eq(c.at(m.qs, i, j), q0(i, j)), c.eq(c.at(m.cell_type, i, j), t0(i, j)))}
    c.forall("after-all-sweeps", (L, W), post)


@goal("C11", "one_sweep", n=300, budget=120)
def one_sweep(c):
    L, W = dims(c)
    m, mult = fields(c, L, W)
    c.set(m, N_crossdiff=1)
    e0, q0, t0 = c.snap(m.eta), c.snap(m.qs), c.snap(m.cell_type)
    c.call(m.topo_diffusion)

    def post(i, j):
        fixed = c.Or(c.eq(t0(i, j), -2), c.eq(i, 0))
        e = c.at(m.eta, i, j)
        return {"land-and-first-row-fixed": c.Implies(fixed, c.eq(e, e0(i, j))),
                "flux-sum": c.Implies(c.Not(fixed), lambda: c.eq(e, e0(i, j) + sweep(c, e0, q0, mult, i, j, L, W)))}
    c.forall("bed", (L, W), post)


@goal("C11", "pairwise_exchange", conc=False)
def pairwise(c):
    """lemma: the flux-sum rule takes from one cell what it gives its neighbour"""
    a, b, qa, qb, mult = [c.real(n) for n in ("eta_a", "eta_b", "qs_a", "qs_b", "mult")]
    c.prove("antisymmetric", c.eq(mult * (b - a) * (qa + qb) + mult * (a - b) * (qb + qa), 0))
    c.assume(a >= b, qa >= 0, qb >= 0, mult >= 0)
    c.prove("downslope", c.And(mult * (b - a) * (qa + qb) <= 0, mult * (a - b) * (qb + qa) >= 0))


@goal("C11", "two_cells_conserve", n=200, budget=120)
def two_cells(c):
    """transfer between two adjacent free cells cancels: with flux in these two cells and
    bed difference between them only, the total bed is unchanged"""
    L, W = dims(c, 5)
    m, mult = fields(c, L, W)
    c.set(m, N_crossdiff=1, cell_type=c.zeros((L, W), "i"))
    i, j = c.int("i", 2, None, hint=(2, 5)), c.int("j", 1, None, hint=(1, 5))
    k = c.choice("k", EIGHT)
    i2, j2 = i + NB[k][0], j + NB[k][1]
    c.assume(i < L - 1, j < W - 1, 1 <= i2, i2 < L - 1, 1 <= j2, j2 < W - 1)
    ea, eb, q1, q2, base = c.real("ea"), c.real("eb"), c.real("qa", lo=0), c.real("qb", lo=0), c.real("base")
    one = lambda a, b: c.And(c.eq(a, i), c.eq(b, j))
    two = lambda a, b: c.And(c.eq(a, i2), c.eq(b, j2))
    # only the pair carries flux
    c.set(m, eta=c.arr("eta", (L, W)), qs=c.zeros((L, W)))
    e0 = c.snap(m.eta)
    c.set(m, qs=c.mk((L, W), lambda a, b: c.ite(one(a, b), q1, c.ite(two(a, b), q2, 0))))
    x0, y0 = e0(i, j), e0(i2, j2)
    c.call(m.topo_diffusion)
    pair = mult * (y0 - x0) * (q1 + q2)
    # remove the exchange of each cell with its other (flux-free) neighbours
    oth = lambda a, b, q, A, B: mult * c.sum([(e0(a + NB[n][0], b + NB[n][1]) - e0(a, b)) * q for n in EIGHT
                                              if not (NB[n] == (A, B))])
    d1 = c.at(m.eta, i, j) - x0 - oth(i, j, q1, NB[k][0], NB[k][1])
    d2 = c.at(m.eta, i2, j2) - y0 - oth(i2, j2, q2, -NB[k][0], -NB[k][1])
    c.prove("gain-of-one", c.eq(d1, pair))
    c.prove("loss-of-other", c.eq(d2, -pair))
