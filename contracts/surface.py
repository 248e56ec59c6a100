"""C09 free surface."""
from .common import *

EIGHT = [k for k in range(9) if k != 4]


def smooth_cell(c, H, ct, Cs, i, j, L, W):
    """one smoothing of one cell: weighted with the mean of its non-land neighbours
    (border cells repeated outside the grid); edge cells and isolated cells keep theirs"""
    tot, cnt = 0, 0
    for k in EIGHT:
        a, b = clampi(c, i + NB[k][0], L), clampi(c, j + NB[k][1], W)
        land = c.eq(ct(a, b), -2)
        tot = tot + c.ite(land, 0, H(a, b))
        cnt = cnt + c.ite(land, 0, 1)
    keep = c.Or(c.eq(ct(i, j), -1), c.eq(cnt, 0))
    if not c.sym:
        return H(i, j) if keep else Cs * H(i, j) + (1 - Cs) * (tot / cnt)
    return c.ite(keep, H(i, j), Cs * H(i, j) + (1 - Cs) * (tot / cnt))


def _inv_sweep(c, e):
    L, W, S, unfold = c.ghost
    H = e["Htemp"]
    return c.FA((L, W), lambda a, b: c.eq(c.at(H, a, b), S(e.stack[0], a, b)), on=H)


def _inv_cells(c, e):
    L, W, S, unfold = c.ghost
    H = e["Htemp"]
    st = e.stack
    n, i, j = st[0], st[1], (st[2] if len(st) > 2 else 0)

    if len(st) > 2:
        unfold(n + 1, i, j - 1)

    def f(a, b):
        return c.eq(c.at(H, a, b), c.ite(c.Or(a < i, c.And(a == i, b < j)), S(n + 1, a, b), S(n, a, b)))
    return c.FA((L, W), f, on=H)


@goal("C09", "smoothing", n=200, budget=150, loops={"_smooth_free_surface": [
    Loop(1, "sweeps", _inv_sweep), Loop(2, "rows", _inv_cells), Loop(3, "cells", _inv_cells)]})
def smoothing(c):
    L, W = dims(c, 2)
    H = c.arr("H", (L, W), pts=[0, 1])
    ct = c.arr("cell_type", (L, W), "i", vals=CELLS)
    N = c.int("Nsmooth", 0, None, hint=(0, 3))
    Cs = c.real("Csmooth", lo=0, hint=(0, 1), pts=[0, 1, 0.5])
    h0, t0 = c.snap(H), c.snap(ct)
    if c.sym:
        pad_contract(c)
        S = lambda n, i, j: c.uf("surface", [n, i, j])

        def unfold(n, i, j):
            prev = lambda a, b: S(n - 1, a, b)
            c.assume(c.Implies(n > 0, c.eq(S(n, i, j), smooth_cell(c, prev, t0, Cs, i, j, L, W))))
        c.axiom(["surface"], 3, lambda n, i, j: c.Implies(c.eq(n, 0), c.eq(S(n, i, j), h0(i, j))))
        c.ghost = (L, W, S, unfold)
    else:
        cur = [[h0(i, j) for j in range(W)] for i in range(L)]
        for _ in range(N):
            g = lambda a, b, cur=cur: cur[a][b]
            cur = [[smooth_cell(c, g, t0, Cs, i, j, L, W) for j in range(W)] for i in range(L)]
        S = lambda n, i, j: cur[i][j]
    r = c.call(c.fn("water_tools", "_smooth_free_surface"), H, ct, N, Cs)
    c.forall("after-all-smoothings", (L, W), lambda i, j: c.eq(c.at(r, i, j), S(N, i, j)))
    c.forall("inputs-unchanged", (L, W), lambda i, j: c.And(c.eq(c.at(H, i, j), h0(i, j)), c.eq(c.at(ct, i, j), t0(i, j))))


@goal("C09", "relaxation", n=200)
def relaxation(c):
    """finalize_free_surface: under-relaxation of the smoothed surface after the first timestep"""
    L, W = dims(c, 2)
    m = model(c, L, W)
    om = c.real("omega_sfc", 0, 1, pts=[0, 1, 0.25])
    N, Cs = c.int("Nsmooth", 0, None, hint=(0, 2)), c.real("Csmooth", lo=0, hint=(0, 1), pts=[0.5])
    Hn, st = c.arr("Hnew", (L, W), pts=[0, 1]), c.arr("stage", (L, W), pts=[0, 1])
    ct = c.arr("cell_type", (L, W), "i", vals=CELLS)
    c.set(m, _omega_sfc=om, _Nsmooth=N, _Csmooth=Cs, Hnew=Hn, stage=st, cell_type=ct, eta=c.arr("eta", (L, W)),
          depth=c.arr("depth", (L, W), lo=0, pts=[0, 1]))
    h0, s0 = c.snap(Hn), c.snap(st)
    if c.sym:
        S = lambda i, j: c.uf("smoothed", [i, j])

        def sm(H, t, n, k):
            c.prove("smoothing-parameters", c.And(c.eq(n, N), c.eq(k, Cs)))
            c.forall("smoothing-input", (L, W), lambda i, j: c.And(c.eq(c.at(H, i, j), h0(i, j)),
                                                                    c.eq(c.at(t, i, j), c.at(ct, i, j))))
            return c.mk((L, W), S)
        c.contract("_smooth_free_surface", sm)
    else:
        r = c.fn("water_tools", "_smooth_free_surface")(Hn.copy(), ct.copy(), N, Cs)
        S = lambda i, j: float(r[i, j])
    seen = []

    def flood(self):
        seen.append(c.snap(self.stage))
    c.stub("flooding_correction", flood)
    c.call(m.finalize_free_surface)
    c.prove("then-flooding-correction", c.eq(len(seen), 1))
    c.forall("relaxed", (L, W), lambda i, j: c.eq(seen[0](i, j), c.ite(
        m._time_iter > 0, (1 - om) * s0(i, j) + om * S(i, j), s0(i, j))))
    c.forall("final", (L, W), lambda i, j: c.eq(c.at(m.stage, i, j), seen[0](i, j)))


@goal("C09", "new_surface", n=200)
def new_surface(c):
    """compute_free_surface: mean over visits, else the previous surface; at least sea level and bed"""
    L, W = dims(c, 2)
    m = model(c, L, W)
    grids(c, m, L, W, ["eta", "uw", "ux", "uy"], pts=[0, 1])
    grids(c, m, L, W, ["depth"], lo=0, pts=[0, 1])
    P, n = c.int("P", 1, None, hint=(1, 3)), c.int("n", 1, None, hint=(1, 4))
    c.set(m, cell_type=c.arr("cell_type", (L, W), "i", vals=CELLS), free_surf_walk_inds=c.arr("walks", (P, n), "i", lo=0, hi=L * W - 1),
          free_surf_flag=c.arr("flag", (P,), "i", vals=(0, 1)), sfc_visit=c.zeros((L, W)), sfc_sum=c.zeros((L, W)))
    V = c.arr("visits", (L, W), lo=0, pts=[0, 0, 1, 2])
    Q = c.arr("sums", (L, W), pts=[0, 1])
    v, q, e, d = c.snap(V), c.snap(Q), c.snap(m.eta), c.snap(m.depth)
    names = ("free_surf_walk_inds", "free_surf_flag", "cell_type", "uw", "ux", "uy", "depth", "_dx", "_u0", "_h0", "_H_SL", "_S0")

    def acc(*a):
        for x, nm in zip(a, names):
            w = getattr(m, nm)
            if nm[0] == "_":
                c.prove("accumulation-gets-" + nm.strip("_"), c.eq(x, w))
            else:
                c.forall("accumulation-gets-" + nm, c.shape(w), lambda *ix: c.eq(c.at(x, *ix), c.at(w, *ix)))
        return V, Q
    c.stub("_accumulate_free_surface_walks", acc)
    log = []
    c.stub("finalize_free_surface", lambda self: log.append(c.snap(self.Hnew)))
    c.call(m.compute_free_surface)
    c.prove("then-smoothed-and-relaxed", c.eq(len(log), 1))

    def want(i, j):
        if c.sym:
            mean = c.ite(v(i, j) > 0, q(i, j) / v(i, j), e(i, j) + d(i, j))
        else:
            mean = q(i, j) / v(i, j) if v(i, j) > 0 else e(i, j) + d(i, j)
        return c.max(c.max(mean, m._H_SL), e(i, j))
    c.forall("new-surface", (L, W), lambda i, j: c.eq(log[0](i, j), want(i, j)))
    c.forall("frame", (L, W), lambda i, j: c.And(c.eq(c.at(m.eta, i, j), e(i, j)), c.eq(c.at(m.depth, i, j), d(i, j))))


@goal("C09", "iteration_start", n=60)
def iteration_start(c):
    """before the parcels walk, no walk is recorded and every parcel is a valid contributor"""
    L, W, m = world(c)
    P, K = c.int("P", 1, None, hint=(1, 4)), c.int("K", 1, None, hint=(1, 5))
    c.set(m, free_surf_flag=c.arr("flag", (P,), "i"), free_surf_walk_inds=c.arr("walk", (P, K), "i"), _Np_water=P)
    c.call(m.init_water_iteration)
    c.prove("walk-matrix-kept", c.And(c.eq(c.shape(m.free_surf_walk_inds)[0], P), c.shape(m.free_surf_walk_inds)[1] >= 1))
    c.forall("no-walk-recorded", c.shape(m.free_surf_walk_inds), lambda p, k: c.eq(c.at(m.free_surf_walk_inds, p, k), 0))
    c.forall("every-parcel-valid", (P,), lambda p: c.eq(c.at(m.free_surf_flag, p), 1))


# ---------------------------------------------------------------------- walks
class Walks:
    """specification: contributions of the recorded walks.

    Path of parcel p: the positive entries of its row, in order (zero marks "no cell").
    With T the last entry:  h(T) = sea level; going back, the surface stays flat until the
    path meets channelised flow, from there it follows the reference slope along the flow."""

    def __init__(self, c, m, F, Wk, G, P, n):
        self.c, self.m, self.F, self.Wk, self.G, self.P = c, m, F, Wk, G, P

    def step(self, oc1, dh1, a, b, dx):
        """(still in the open ocean, slope increment) after moving back from cell b to cell a"""
        c, m, F = self.c, self.m, self.F
        moved = c.Or(c.ne(a[0], b[0]), c.ne(a[1], b[1]))
        u = F["uw"](*a)
        fast = c.Or(u > 0.5 * m._u0, F["depth"](*a) < 0.1 * m._h0)
        if c.sym:
            sl = m._S0 * (F["ux"](*a) * (b[0] - a[0]) * dx + F["uy"](*a) * (b[1] - a[1]) * dx) / u
            oc = c.ite(c.And(moved, oc1), c.Not(fast), oc1)
            dh = c.ite(c.And(moved, c.Not(oc1)), c.ite(c.eq(u, 0), 0, sl), dh1)
            return oc, dh
        if not moved:
            return oc1, dh1
        if oc1:
            return not fast, dh1
        return oc1, (0 if u == 0 else m._S0 * (F["ux"](*a) * (b[0] - a[0]) * dx + F["uy"](*a) * (b[1] - a[1]) * dx) / u)


def _acc_ghost(c, e):
    p = e.stack[0]
    g = c.ghost
    return p, g, g.n(p)


def _inv_acc_parcels(c, e):
    p, g, n = e.k, c.ghost, None
    v, s = e["sfc_visit"], e["sfc_sum"]
    return [c.FA(v.shape, lambda i, j: (c.assume(g.tot(p, i, j)), c.eq(c.at(v, i, j), g.V(p, i, j)))[1], on=v),
            c.FA(s.shape, lambda i, j: (c.assume(g.tot(p, i, j)), c.eq(c.at(s, i, j), g.S(p, i, j)))[1], on=s)]


def _inv_acc_unravel(c, e):
    p, g, n = _acc_ghost(c, e)
    xs, ys = e["xs"], e["ys"]
    return [c.FA((e.k,), lambda t: c.eq(c.at(xs, t), g.X(p, t)), on=xs),
            c.FA((e.k,), lambda t: c.eq(c.at(ys, t), g.Y(p, t)), on=ys)]


def _inv_acc_back(c, e):
    p, g, n = _acc_ghost(c, e)
    v, s, H = e["sfc_visit"], e["sfc_sum"], e["Hnew"]
    t = n - 1 - e.k
    c.assume(g.back(p, t))
    return [c.eq(c.at(H, g.X(p, t), g.Y(p, t)), g.h(p, t)), c.Iff(e["in_ocean"], g.oc(p, t)), c.eq(e["dH"], g.dh(p, t)),
            c.FA(v.shape, lambda i, j: (c.assume(g.cum(p, t, i, j)), c.eq(c.at(v, i, j), g.V(p, i, j) + g.VC(p, t, i, j)))[1], on=v),
            c.FA(s.shape, lambda i, j: (c.assume(g.cum(p, t, i, j)), c.eq(c.at(s, i, j), g.S(p, i, j) + g.SC(p, t, i, j)))[1], on=s)]


@goal("C09", "walk_contributions", n=400, budget=150, loops={"_accumulate_free_surface_walks": [
    Loop(1, "parcels", _inv_acc_parcels), Loop(2, "unravel", _inv_acc_unravel), Loop(2, "back", _inv_acc_back)]})
def walk_contributions(c):
    L, W = dims(c, 2)
    m = model(c, L, W)
    P, n = c.int("P", 1, None, hint=(1, 4)), c.int("n", 1, None, hint=(1, 9))
    ct = c.arr("cell_type", (L, W), "i", vals=(-1, -1, 0, 1, -2))
    F = {}
    A = {}
    for nm, kw in (("uw", dict(lo=0, pts=[0, 1])), ("ux", dict(pts=[0])), ("uy", dict(pts=[0])), ("depth", dict(lo=0, pts=[0, 1]))):
        A[nm] = c.arr(nm, (L, W), **kw)
        F[nm] = c.snap(A[nm])
    walk = c.arr("walks", (P, n), "i", lo=0, hi=L * W - 1)
    flag = c.arr("flag", (P,), "i", vals=(0, 1))
    Wk, G, C = c.snap(walk), c.snap(flag), c.snap(ct)
    g = Walks(c, m, F, Wk, G, P, n)
    dx = m._dx
    if c.sym:
        line = lambda p: c.mk((n,), lambda t: Wk(p, t), "i")
        g.row = lambda p: line(p)[line(p) > 0]
        g.n = lambda p: c.shape(g.row(p))[0]
        ufR, ufC = (lambda i: c.uf("row", [i], "I")), (lambda i: c.uf("col", [i], "I"))
        rng = lambda i: c.Implies(c.And(0 <= i, i < L * W), c.And(0 <= ufR(i), ufR(i) < L, 0 <= ufC(i), ufC(i) < W))
        c.axiom(["row"], 1, rng)
        c.axiom(["col"], 1, rng)

        def unravel(i, shape):
            c.prove("unravel-on-grid", c.And(0 <= i, i < L * W, c.eq(shape[0], L), c.eq(shape[1], W)))
            return ufR(i), ufC(i)
        c.contract("custom_unravel", unravel)
        g.X = lambda p, t: ufR(c.at(g.row(p), t))
        g.Y = lambda p, t: ufC(c.at(g.row(p), t))
        for nm, k, srt in (("V", 3, "R"), ("S", 3, "R"), ("VC", 4, "R"), ("SC", 4, "R"), ("h", 2, "R"), ("dh", 2, "R"), ("oc", 2, "B")):
            setattr(g, nm, lambda *a, nm=nm, srt=srt: c.uf("walk_" + nm, a, srt))

        def back(p, t):
            last = g.n(p) - 1
            oc, dh = g.step(g.oc(p, t + 1), g.dh(p, t + 1), (g.X(p, t), g.Y(p, t)), (g.X(p, t + 1), g.Y(p, t + 1)), dx)
            return c.And(c.Implies(c.eq(t, last), c.And(c.eq(g.h(p, t), m._H_SL), g.oc(p, t), c.eq(g.dh(p, t), 0))),
                         c.Implies(c.And(0 <= t, t < last), c.And(
                             c.Iff(g.oc(p, t), oc), c.eq(g.dh(p, t), dh), c.eq(g.h(p, t), g.h(p, t + 1) + g.dh(p, t)))))

        def cum(p, t, i, j):
            last = g.n(p) - 1
            here = c.And(c.eq(g.X(p, t), i), c.eq(g.Y(p, t), j))
            return c.And(c.Implies(c.eq(t, last), c.And(c.eq(g.VC(p, t, i, j), 0), c.eq(g.SC(p, t, i, j), 0))),
                         c.Implies(c.And(0 <= t, t < last), c.And(
                             c.eq(g.VC(p, t, i, j), g.VC(p, t + 1, i, j) + c.ite(here, 1, 0)),
                             c.eq(g.SC(p, t, i, j), g.SC(p, t + 1, i, j) + c.ite(here, g.h(p, t), 0)))))

        def valid(p):
            last = g.n(p) - 1
            return c.And(c.eq(C(g.X(p, last), g.Y(p, last)), -1), c.eq(G(p), 1))

        def tot(p, i, j):
            q = p - 1
            return c.And(c.Implies(c.eq(p, 0), c.And(c.eq(g.V(p, i, j), 0), c.eq(g.S(p, i, j), 0))),
                         c.Implies(c.And(0 < p, p <= P), c.And(
                             c.eq(g.V(p, i, j), g.V(q, i, j) + c.ite(valid(q), g.VC(q, 0, i, j), 0)),
                             c.eq(g.S(p, i, j), g.S(q, i, j) + c.ite(valid(q), g.SC(q, 0, i, j), 0)))))
        g.back, g.cum, g.tot = back, cum, tot
        # the start of every parcel is recorded first and is not the corner cell 0
        c.axiom([walk], 2, lambda p, t: c.Implies(c.And(0 <= p, p < P), Wk(p, 0) > 0))
        c.use_at(0)
        c.ghost = g
    else:
        vis = [[0] * W for _ in range(L)]
        tot = [[0.] * W for _ in range(L)]
        for p in range(P):
            path = [(int(x) // W, int(x) % W) for x in walk[p] if x > 0]
            c.assume(walk[p, 0] > 0)
            if C(*path[-1]) != -1 or G(p) != 1:
                continue
            h, oc, dh = m._H_SL, True, 0
            for t in range(len(path) - 2, -1, -1):
                oc, dh = g.step(oc, dh, path[t], path[t + 1], dx)
                h = h + dh
                vis[path[t][0]][path[t][1]] += 1
                tot[path[t][0]][path[t][1]] += h
        g.V, g.S = (lambda p, i, j: vis[i][j]), (lambda p, i, j: tot[i][j])
    v, s = c.call(c.fn("water_tools", "_accumulate_free_surface_walks"), walk, flag, ct, A["uw"], A["ux"], A["uy"], A["depth"],
                  dx, m._u0, m._h0, m._H_SL, m._S0)
    c.forall("visits-and-elevations", (L, W), lambda i, j: {"visits": c.eq(c.at(v, i, j), g.V(P, i, j)),
                                                            "elevation-sum": c.eq(c.at(s, i, j), g.S(P, i, j))})
