"""C03 parcel walks of water: picks, starts, steps, loops."""
from .common import *


@goal("C03", "random_pick", n=600)
def random_pick(c):
    """a draw u in (0, total) picks the direction whose cumulative interval contains u, hence one of positive probability"""
    f = c.fn("shared_tools", "random_pick")
    prob = c.arr("prob", (9,), lo=0, pts=[0, 0.5])
    w = c.elems(prob)
    tot = c.sum(w)
    c.assume(tot > 0)
    frac = c.real("frac", pos=True, hint=(0.015625, 0.984375))
    c.assume(frac < 1)
    used = []

    def draw(limit):
        c.prove("draw-over-total", c.eq(limit, tot))
        used.append(1)
        return frac * limit
    c.stub("get_random_uniform", draw)
    k = c.call(f, prob)
    c.prove("one-draw", len(used) == 1)
    c.prove("in-range", c.And(0 <= k, k < 9))
    cum = [c.sum(w[:n + 1]) for n in range(9)]
    u = frac * tot
    if not c.sym:
        c.assume(all(abs(x - u) > 1e-9 for x in cum))
    c.prove("interval", c.And(u <= c.pick(k, cum), c.Implies(k > 0, c.pick(k, [0] + cum[:-1]) < u)))
    c.prove("positive-probability", c.pick(k, w) > 0)


@goal("C03", "random_pick_any_length", n=300)
def random_pick_n(c):
    f = c.fn("shared_tools", "random_pick")
    N = c.int("N", 1, None, hint=(1, 8))
    prob = c.arr("prob", (N,), lo=0, pts=[0, 0.5])
    S = c.snap(prob)
    if c.sym:
        c.stub("get_random_uniform", lambda limit: _pos_draw(c, limit))
    else:
        c.assume(sum(S(i) for i in range(N)) > 0)
    k = c.call(f, prob)
    if c.sym:
        c.use_at(k)
    c.prove("in-range", c.And(0 <= k, k < N))
    c.prove("positive-probability", S(k) > 0)


def _pos_draw(c, limit):
    c.assume(limit > 0)
    u = c.fresh_real("u")
    c.assume(0 < u, u < limit)
    return u


def pick_contract(c):
    """contract of random_pick (proved above): some index of positive weight"""
    def f(w):
        n = c.shape(w)[0]
        k = c.fresh_int("pick", 0)
        c.assume(k < n, c.at(w, k) > 0)
        return k
    c.contract("random_pick", f)


def _inv_starts(c, e):
    lo, hi, w = c.ghost
    try:
        l = e["idxs"]
    except KeyError:
        return None
    n = hi - lo
    return [c.FA((e.k,), lambda t: c.And(0 <= c.at(l, t), c.at(l, t) < n, w(c.at(l, t)) > 0))]


@goal("C03", "start_indices", n=300, loops={"get_start_indices": [Loop(1, "picks", _inv_starts)]})
def start_indices(c):
    """every parcel starts at an inlet column of positive weight"""
    lo = c.int("lo", 0, None, hint=(0, 3))
    hi = c.int("hi", 1, None, hint=(1, 7))
    c.assume(lo < hi)
    inlet = c.arange(lo, hi)
    w = c.arr("w", (hi - lo,), lo=0, pts=[0, 1])
    W = c.snap(w)
    P = c.int("P", 1, None, hint=(1, 8))
    if c.sym:
        tot = c.fresh_real("total")
        c.ghost = (lo, hi, W)
        pick_contract(c)
    else:
        c.assume(sum(W(i) for i in range(hi - lo)) > 0)
    r = c.call(c.fn("shared_tools", "get_start_indices"), inlet, w, P)
    c.prove("number", c.eq(c.shape(r)[0], P))
    c.forall("inlet-column", (P,), lambda p: c.And(lo <= c.at(r, p), c.at(r, p) < hi, W(c.at(r, p) - lo) > 0))
    c.forall("inlet-unchanged", (hi - lo,), lambda k: c.And(c.eq(c.at(inlet, k), lo + k), c.eq(c.at(w, k), W(k))))


@goal("C03", "inlet_weights", n=20)
def inlet_weights(c):
    lo = c.int("lo", 0, None, hint=(0, 3))
    hi = c.int("hi", 1, None, hint=(1, 7))
    c.assume(lo < hi)
    m = c.base()
    c.set(m, inlet=c.arange(lo, hi))
    for f in (m.get_inlet_weights_water, m.get_inlet_weights_sediment):
        w = c.call(f)
        c.prove("size", c.eq(c.shape(w)[0], hi - lo))
        c.forall("uniform", (hi - lo,), lambda k: c.eq(c.at(w, k), 1))


def _inv_dirs(c, e):
    I, Wt = c.ghost
    d = e.written(1, "i")
    return c.FA(d.shape, lambda p: c.Implies(p < e.k, c.And(
        0 <= c.at(d, p), c.at(d, p) <= 8,
        c.ite(c.eq(I(p), 0), c.eq(c.at(d, p), 4), Wt(I(p), c.at(d, p)) > 0))), on=d)


@goal("C03", "choose_directions", n=200, loops={"_choose_next_directions": [Loop(1, "parcels", _inv_dirs)]})
def choose_directions(c):
    """every moving parcel gets a direction of positive probability of its own cell; finished ones stay"""
    N = c.int("N", 2, None, hint=(2, 9))
    P = c.int("P", 1, None, hint=(1, 8))
    inds = c.arr("inds", (P,), "i", lo=0, hi=N - 1)
    wts = c.arr("wts", (N, 9), lo=0, pts=[0, 0, 1])
    I, Wt = c.snap(inds), c.snap(wts)
    c.ghost = (I, Wt)
    if c.sym:
        pick_contract(c)
    else:
        c.assume(all(sum(Wt(n, k) for k in range(9)) > 0 for n in range(N)))
    d = c.call(c.fn("water_tools", "_choose_next_directions"), inds, wts)
    c.prove("number", c.eq(c.shape(d)[0], P))
    c.forall("direction", (P,), lambda p: {
        "finished-stay": c.Implies(c.eq(I(p), 0), c.eq(c.at(d, p), 4)),
        "range": c.And(0 <= c.at(d, p), c.at(d, p) <= 8),
        "positive-probability": c.Implies(c.ne(I(p), 0), lambda: Wt(I(p), c.at(d, p)) > 0),
        "positions-unchanged": c.eq(c.at(inds, p), I(p))})


def _inv_new(c, e):
    I, D, W = c.ghost
    a = e.written(1, "i")
    return c.FA(a.shape, lambda p: c.Implies(p < e.k, c.eq(c.at(a, p), c.ite(
        c.eq(D(p), 4), 0, I(p) + c.pick(D(p), [x[0] * W + x[1] for x in NB])))), on=a)


@goal("C03", "new_positions", n=200, loops={"_calculate_new_inds": [Loop(1, "parcels", _inv_new)]})
def new_positions(c):
    """the new position is the neighbour in the chosen direction: adjacent and on the grid"""
    L, W = dims(c)
    P = c.int("P", 1, None, hint=(1, 8))
    inds = c.arr("inds", (P,), "i", lo=0, hi=L * W - 1)
    dirs = c.arr("dirs", (P,), "i", lo=0, hi=8)
    walk = c.mk((9,), lambda k: c.pick(k, [x[0] * W + x[1] for x in NB]), "i")
    I, D = c.snap(inds), c.snap(dirs)
    c.ghost = (I, D, W)
    r = c.call(c.fn("water_tools", "_calculate_new_inds"), inds, dirs, walk)
    c.prove("number", c.eq(c.shape(r)[0], P))
    c.forall("position", (P,), lambda p: {
        "moved": c.eq(c.at(r, p), c.ite(c.eq(D(p), 4), 0, I(p) + c.pick(D(p), [x[0] * W + x[1] for x in NB]))),
        "inputs-unchanged": c.And(c.eq(c.at(inds, p), I(p)), c.eq(c.at(dirs, p), D(p)))})


@goal("C03", "flat_step_is_adjacent", n=200)
def flat_step(c):
    """lemma: from an interior column a flat step by di*W+dj lands in the neighbouring row and column"""
    L, W = dims(c)
    x, y = c.int("x", 0, None, hint=(0, 5)), c.int("y", 1, None, hint=(1, 5))
    k = c.choice("k", list(range(9)))
    di, dj = NB[k]
    c.assume(x < L - 1, y < W - 1, x + di >= 0)
    n = (x * W + y) + (di * W + dj)
    c.prove("on-grid", c.And(0 <= n, n < L * W))
    a, b = c.call(c.fn("shared_tools", "custom_unravel"), n, (L, W))
    c.prove("adjacent", c.And(c.eq(a, x + di), c.eq(b, y + dj)))


@goal("C03", "walk_matrix_grows", n=200)
def walk_matrix(c):
    """the record of paths always has room for the step, keeps what was recorded, and new room is empty"""
    P = c.int("P", 1, None, hint=(1, 5))
    n = c.int("n", 1, None, hint=(1, 9))
    smax = c.int("stepmax", 4, None, hint=(4, 20))
    it = c.int("it", 0, None, hint=(0, 9))
    c.assume(it <= n)
    m = c.base()
    walk = c.arr("walk", (P, n), "i", lo=0)
    S = c.snap(walk)
    c.set(m, free_surf_walk_inds=walk, _stepmax=smax, _Np_water=P)
    c.call(m.check_size_of_indices_matrix, it)
    sh = c.shape(m.free_surf_walk_inds)
    c.prove("room", c.And(c.eq(sh[0], P), sh[1] > it, sh[1] >= n))
    c.forall("kept", (P, n), lambda p, s: c.eq(c.at(m.free_surf_walk_inds, p, s), S(p, s)))
    c.forall("new-room-empty", (P, sh[1]), lambda p, s: c.Implies(s >= n, lambda: c.eq(c.at(m.free_surf_walk_inds, p, s), 0)))


@goal("C03", "boundary", n=200)
def boundary(c):
    L, W = dims(c)
    P = c.int("P", 1, None, hint=(1, 8))
    m = c.base()
    ct = c.arr("cell_type", (L, W), "i", vals=CELLS)
    inds = c.arr("inds", (P,), "i", lo=0, hi=L * W - 1)
    c.set(m, cell_type=ct, L=L, W=W)
    C, I = c.snap(ct), c.snap(inds)
    b = c.call(m.check_for_boundary, inds)
    c.forall("edge-cells", (P,), lambda p: c.Iff(c.at(b, p), c.eq(C(c.idiv(I(p), W), I(p) % W), -1)))


# ---------------------------------------------------------------------- loops
def jump(c, x, y, L0, CTR, L, W):
    """where a parcel caught in a loop at (x, y) is put: about five cells away from the inlet
    mouth (row 1, centre column), beyond the inlet length and off the outermost cells"""
    fx, fy = x - 1, y - CTR
    f = c.sqrt(fx * fx + fy * fy)
    if c.sym:
        dx, dy = c.rint(fx / f * 5), c.rint(fy / f * 5)
        at0 = c.eq(f, 0)
        nx, ny = c.ite(at0, x, x + dx), c.ite(at0, y, y + dy)
    else:
        nx, ny = (x, y) if f == 0 else (x + int(round(fx / f * 5)), y + int(round(fy / f * 5)))
    return c.min(L - 2, c.max(nx, L0)), c.min(W - 2, c.max(1, ny))


def _inv_loops(c, e):
    N, S, Wk, step, L0, CTR, L, W, hit, goal_, flat = c.ghost
    a, b = e.at("new_inds", 0), None
    new, lp = e["new_inds"], e["looped"]
    c.mention(c.uf("witness", [e.k], "I"))
    return [c.FA(new.shape, lambda p: c.eq(c.at(new, p), c.ite(c.And(p < e.k, hit(p)), goal_(p), N(p))), on=new),
            c.Implies(e.k < new.shape[0], c.eq(c.uf("jumped", [c.at(new, e.k)], "I"), c.uf("jumped", [N(e.k)], "I"))),
            c.FA(lp.shape, lambda p: c.eq(c.at(lp, p), c.num(c.And(p < e.k, hit(p), c.Not(flat(p))))), on=lp)]


def _inv_scan(c, e):
    """nothing found among the cells scanned so far"""
    N = c.ghost[0]
    w, ni = e["relv_walk"], e["new_ind"]
    return [c.Not(e["has_repeat_ind"]), c.FA((e.k,), lambda t: c.ne(c.at(w, t), ni))]


@goal("C03", "loops_few_steps", n=100)
def loops_few(c):
    """nothing is moved before the walk is longer than the inlet"""
    L, W = dims(c)
    P = c.int("P", 1, None, hint=(1, 5))
    n = c.int("n", 1, None, hint=(1, 9))
    L0 = c.int("L0", 1, None, hint=(1, 3))
    step = c.int("step", 0, None, hint=(0, 9))
    c.assume(step <= L0)
    walk = c.arr("walk", (P, n), "i", lo=0, hi=L * W - 1)
    new = c.arr("new", (P,), "i", lo=0, hi=L * W - 1)
    N = c.snap(new)
    sl = c.arr("stage", (L, W))
    r, lp = c.call(c.fn("water_tools", "_check_for_loops"), walk, new, step, L0, c.int("CTR", 0, None), sl)
    c.forall("kept", (P,), lambda p: c.And(c.eq(c.at(r, p), N(p)), c.eq(c.at(lp, p), 0)))


def _loops_setup(c, P, L, W):
    n = c.int("n", 1, None, hint=(1, 9))
    L0 = c.int("L0", 1, None, hint=(1, 3))
    CTR = c.int("CTR", 1, None, hint=(1, 4))
    c.assume(L0 <= L - 2, CTR < W)
    step = c.int("step", 1, None, hint=(1, 9))
    walk = c.arr("walk", (P, n), "i", lo=0, hi=L * W - 1)
    new = c.arr("new", (P,), "i", lo=0, hi=L * W - 1)
    sl = c.arr("stage", (L, W), pts=[0, 0.0625, -0.0625, 0.125])
    return n, L0, CTR, step, walk, new, sl


@goal("C03", "loops", n=500, budget=150, loops={"_check_for_loops": [Loop(1, "parcels", _inv_loops, auto=False), Loop(2, "scan", _inv_scan, auto=False)]})
def loops_(c):
    L, W = dims(c, 4)
    P = c.int("P", 1, None, hint=(1, 5))
    n, L0, CTR, step, walk, new, sl = _loops_setup(c, P, L, W)
    N, S, Wk = c.snap(new), c.snap(sl), c.snap(walk)
    X, Y = lambda p: c.idiv(N(p), W), lambda p: N(p) % W
    if c.sym:
        # ghost: does the new position occur in the recorded path beyond the inlet rows?
        rep = lambda p: c.uf("repeats", [p], "B")
        wit = lambda p: c.uf("witness", [p], "I")
        occurs = lambda p, t: c.And(0 <= t, t < n, c.eq(Wk(p, t), N(p)), Wk(p, t) >= L0 * W)
        c.axiom(["repeats"], 1, lambda p: c.Implies(rep(p), occurs(p, wit(p))))
        c.axiom([walk], 2, lambda p, t: c.Implies(c.And(0 <= p, p < P, occurs(p, t)), rep(p)))
    else:
        rep = lambda p: any(Wk(p, t) == N(p) and Wk(p, t) >= L0 * W for t in range(n))
    hit = lambda p: c.And(step > L0, N(p) > 0, rep(p))

    def target(ind):
        x, y = jump(c, c.idiv(ind, W), ind % W, L0, CTR, L, W)
        return x * W + y
    if c.sym:
        c.axiom(["jumped"], 1, lambda ind: c.eq(c.uf("jumped", [ind], "I"), target(ind)), heavy=True)
    goal_ = lambda p: c.uf("jumped", [N(p)], "I") if c.sym else target(N(p))
    flat = lambda p: c.abs(S(X(p), Y(p))) < 0.1
    c.ghost = (N, S, Wk, step, L0, CTR, L, W, hit, goal_, flat)
    r, lp = c.call(c.fn("water_tools", "_check_for_loops"), walk, new, step, L0, CTR, sl)

    def post(p):
        return {"moved-away-from-inlet": c.Implies(hit(p), lambda: c.eq(c.at(r, p), goal_(p))),
                "others-kept": c.Implies(c.Not(hit(p)), c.eq(c.at(r, p), N(p))),
                "flagged-unless-at-sea-level": c.Iff(c.ne0(c.at(lp, p)), c.And(hit(p), c.Not(flat(p))))}
    c.forall("loop", (P,), post)
    c.forall("path-record-unchanged", (P, n), lambda p, t: c.eq(c.at(walk, p, t), Wk(p, t)))
