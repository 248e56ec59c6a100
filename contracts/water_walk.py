"""C03 / C08: the water iteration as a whole: walks of all parcels, for every number of
parcels and steps, over the contracts of its steps."""
from .common import *


def _cell_ok(c, x, y):
    """(0, 0) is the mark of a finished parcel; any other position is an on-grid cell that is not land"""
    L, W, C = c.ghost[:3]
    return c.Or(c.And(c.eq(x, 0), c.eq(y, 0)), c.And(0 <= x, x < L, 0 <= y, y < W, c.ne(C(x, y), -2)))


def adjacent_step(c, Wt, x0, y0, x1, y1):
    """to an adjacent cell to which the routing probabilities of (x0, y0) give positive probability"""
    return c.Or(*[c.And(c.eq(x1, x0 + NB[k][0]), c.eq(y1, y0 + NB[k][1]), Wt(x0, y0, k) > 0) for k in range(9)])


def STEP(c, *a):
    return c.uf("adjacent_step", list(a), "B")


def FLAT(c, x, y):
    return c.uf("flat", [x, y], "I")


def _step_ok(c, x0, y0, x1, y1, s):
    """a step of a walk: to an adjacent cell of positive probability, moved out of a loop, or finished"""
    L, W, C, P, smax, L0 = c.ghost
    return c.Or(c.And(c.eq(x1, 0), c.eq(y1, 0)), STEP(c, x0, y0, x1, y1),
                c.And(s > L0, L0 <= x1, x1 <= L - 2, 1 <= y1, y1 <= W - 2))


def _live(c, x, y):
    L, W, C = c.ghost[:3]
    return c.And(0 <= x, x < L - 1, 1 <= y, y < W - 1, c.ne(C(x, y), -1), c.ne(C(x, y), -2))


def _inv(c, e):
    L, W, C, P, smax, L0 = c.ghost
    m = e["self"]
    cur, n = e["current_inds"], e["_step"]
    wk, gx, gy, wx, wy = m.free_surf_walk_inds, m.ghost_x, m.ghost_y, m.ghost_wx, m.ghost_wy
    sh = c.shape(wk)
    upd = []
    if c.goal.pid == "C09":
        fl = m.free_surf_flag
        upd = [c.FA((P,), lambda p: c.Or(c.at(m.ghost_gone, p), c.eq(c.at(fl, p), c.at(m.ghost_valid, p))), on=fl)]
    elif c.goal.pid == "C08":
        upd = [c.FA((P,), lambda p: c.Or(c.eq(m.ghost_u, 1), c.Not(c.at(m.ghost_e, p)))), c.And(0 <= m.ghost_u, m.ghost_u <= 1)]
    lo, hi = c.at(m.inlet, 0), c.at(m.inlet, 0) + c.shape(m.inlet)[0]
    return upd + [c.FA((P,), lambda p: c.And(c.eq(c.at(wx, p, 0), 0), lo <= c.at(wy, p, 0), c.at(wy, p, 0) < hi), on=wx),
            c.And(c.eq(n, m.ghost_n), 0 <= m.ghost_n, m.ghost_n <= smax),
            c.And(c.eq(sh[0], P), sh[1] > m.ghost_n),
            c.FA((P,), lambda p: c.eq(c.at(cur, p), FLAT(c, c.at(gx, p), c.at(gy, p))), on=cur),
            c.FA((P,), lambda p: c.And(0 <= c.at(cur, p), c.at(cur, p) < L * W), on=cur),
            c.FA((P,), lambda p: c.Or(c.And(c.eq(c.at(gx, p), 0), c.eq(c.at(gy, p), 0)), _live(c, c.at(gx, p), c.at(gy, p))), on=gx),
            c.FA((P, smax + 1), lambda p, s: c.Implies(c.And(0 <= s, s <= m.ghost_n), _cell_ok(c, c.at(wx, p, s), c.at(wy, p, s))), on=wx),
            c.FA((P, smax + 1), lambda p, s: c.Implies(c.And(1 <= s, s <= m.ghost_n), lambda: _step_ok(
                c, c.at(wx, p, s - 1), c.at(wy, p, s - 1), c.at(wx, p, s), c.at(wy, p, s), s)), on=wx),
            c.FA((P,), lambda p: c.Or(c.And(c.eq(c.at(gx, p), 0), c.eq(c.at(gy, p), 0)), c.And(
                c.eq(c.at(gx, p), c.at(wx, p, m.ghost_n)), c.eq(c.at(gy, p), c.at(wy, p, m.ghost_n)))), on=gx),
            c.FA((P, smax + 1), lambda p, s: c.Implies(c.And(0 <= s, s <= m.ghost_n), lambda: c.eq(
                c.at(wk, p, s), FLAT(c, c.at(wx, p, s), c.at(wy, p, s)))), on=wk),
            ]


def _set_col(c, a, n, f, P, smax):
    g = c.snap(a)
    return c.mk((P, smax + 1), lambda p, s: c.ite(c.eq(s, n), f(p), g(p, s)), "i")


def _walks(c, pid):
    """every recorded walk starts in the inlet, steps to adjacent cells of positive probability (or is moved out
    of a loop), never lies on land, and goes on until it reaches the edge or the maximum number of steps"""
    L, W = dims(c)
    P = c.int("P", 1, None)
    smax = c.int("stepmax", 4, None)
    L0 = c.int("L0", 1, None)
    lo, hi = c.int("lo", 1, None), c.int("hi", 1, None)
    c.assume(lo < hi, hi <= W - 1, L0 <= L - 2)
    m = model(c, L, W)
    ct = c.arr("cell_type", (L, W), "i", vals=CELLS)
    C = c.snap(ct)
    # the documented geometry (C22): edge or land along the sides, land only in the inlet rows, open inlet
    c.assume_all(ct, lambda v, i, j: c.And(
        c.Implies(c.Or(c.eq(i, L - 1), c.eq(j, 0), c.eq(j, W - 1)), c.Or(c.eq(C(i, j), -1), c.eq(C(i, j), -2))),
        c.Implies(i >= L0, c.ne(C(i, j), -2)),
        c.Implies(c.And(c.eq(i, 0), lo <= j, j < hi), c.Or(c.eq(C(i, j), 1), c.eq(C(i, j), 0)))))
    c.assume(c.eq(C(0, 0), -2))
    ww = c.arr("weights", (L, W, 9), lo=0)
    Wt = c.snap(ww)
    # adjacent_step as defined above; its consequence is the lemma C03.adjacent_step_stays_in_domain
    c.axiom(["adjacent_step"], 4, lambda x0, y0, x1, y1: c.Implies(
        c.And(STEP(c, x0, y0, x1, y1), _live(c, x0, y0)), c.And(
            0 <= x1, x1 < L, 0 <= y1, y1 < W, c.ne(C(x1, y1), -2))))
    # flat(x, y) stands for x*W + y (row-major index, C23)
    c.axiom(["flat"], 2, lambda x, y: c.Implies(c.And(0 <= x, x < L, 0 <= y, y < W), c.And(
        0 <= FLAT(c, x, y), FLAT(c, x, y) < L * W, c.Iff(c.eq(FLAT(c, x, y), 0), c.And(c.eq(x, 0), c.eq(y, 0))),
        c.Implies(c.eq(x, 0), c.eq(FLAT(c, x, y), y)))))
    c.ghost = (L, W, C, P, smax, L0)
    n0 = c.int("columns", 1, None)
    grids(c, m, L, W, ["qxn", "qyn", "qwn", "stage"])
    c.set(m, cell_type=ct, _Np_water=P, _stepmax=smax, L0=L0, CTR=c.int("CTR", 1, None), inlet=c.arange(lo, hi),
          free_surf_walk_inds=c.arr("walk", (P, n0), "i", lo=0), free_surf_flag=c.arr("flag", (P,), "i", vals=[1]),
          Qp_water=c.real("Qp", pos=True), water_weights=c.arr("stale", (L, W, 9)),
          iwalk_flat=c.const([x[1] for x in NB], "i"), jwalk_flat=c.const([x[0] for x in NB], "i"),
          ravel_walk_flat=c.mk((9,), lambda k: c.pick(k, [x[0] * W + x[1] for x in NB]), "i"))
    c.set(m, ghost_n=0, **{"ghost_" + n: c.zeros((P,), "i") for n in ("x", "y", "dir", "nx", "ny", "flag")},
          ghost_valid=c.ones((P,), "i"), ghost_gone=c.zeros((P,), "b"), ghost_u=1, ghost_second=False, ghost_e=c.zeros((P,), "b"),
          **{"ghost_" + n: c.zeros((P, smax + 1), "i") for n in ("wx", "wy")})

    def starts(inlet, w, n):
        c.prove("one-start-per-parcel", c.eq(n, P))
        a = c.mk((P,), lambda p: c.uf("start", [p], "I"), "i")
        c.axiom(["start"], 1, lambda p: c.And(lo <= c.uf("start", [p], "I"), c.uf("start", [p], "I") < hi))
        m.ghost_y = c.mk((P,), lambda p: c.uf("start", [p], "I"), "i")
        m.ghost_wy = _set_col(c, m.ghost_wy, 0, lambda p: c.uf("start", [p], "I"), P, smax)
        return a

    def weights(self):
        self.water_weights = ww

    def same(name, a):
        c.forall(name, (P,), lambda p: c.eq(c.at(a, p), FLAT(c, c.at(m.ghost_x, p), c.at(m.ghost_y, p))))

    def choose(inds, wts):
        same("step-from-current-cell", inds)
        m.ghost_u, m.ghost_second = 0, False
        c.forall("with-the-routing-probabilities", (L, W, 9), lambda i, j, k: c.eq(c.at(wts, i * W + j, k), Wt(i, j, k)))
        nm = "dir%d" % c.cx.serial
        c.axiom([nm], 1, lambda p: c.And(0 <= c.uf(nm, [p], "I"), c.uf(nm, [p], "I") <= 8))
        m.ghost_dir = c.mk((P,), lambda p: c.uf(nm, [p], "I"), "i")
        return c.mk((P,), lambda p: c.uf(nm, [p], "I"), "i")

    def newpos(inds, dirs, walk):
        same("move-from-current-cell", inds)
        c.forall("move-in-chosen-direction", (P,), lambda p: c.eq(c.at(dirs, p), c.at(m.ghost_dir, p)))
        c.forall("flat-steps", (9,), lambda k: c.eq(c.at(walk, k), c.pick(k, [x[0] * W + x[1] for x in NB])))
        gx, gy = c.snap(m.ghost_x), c.snap(m.ghost_y)
        q = c.cx.serial
        nx, ny = (lambda p, n=n: c.uf("%s%d" % (n, q), [p], "I") for n in ("nx", "ny"))
        # contracts C03.choose_directions and C03.new_positions: finished parcels stay, others make a step
        for n in ("nx", "ny"):
            c.axiom(["%s%d" % (n, q)], 1, lambda p: c.Implies(c.And(0 <= p, p < P), lambda: c.ite(
                c.And(c.eq(gx(p), 0), c.eq(gy(p), 0)), c.And(c.eq(nx(p), 0), c.eq(ny(p), 0)), STEP(c, gx(p), gy(p), nx(p), ny(p)))))
        m.ghost_nx, m.ghost_ny = c.mk((P,), nx, "i"), c.mk((P,), ny, "i")
        return c.mk((P,), lambda p: FLAT(c, nx(p), ny(p)), "i")

    def updq(self, dist_, cur, nxt, astep, jstep, istep, update_current=False, update_next=False):
        if pid != "C08":
            return None
        d, gx, gy, nx, ny = [c.snap(getattr(m, "ghost_" + n)) for n in ("dir", "x", "y", "nx", "ny")]
        vec = dict(dist=(dist_, lambda p: c.sqrt(c.pick(d(p), [x[0] ** 2 + x[1] ** 2 for x in NB])), "f"),
                   moved=(astep, lambda p: c.ne(d(p), 4), "b"),
                   row=(jstep, lambda p: c.pick(d(p), [x[0] for x in NB]), "i"),
                   column=(istep, lambda p: c.pick(d(p), [x[1] for x in NB]), "i"))
        if not m.ghost_second:
            # the step: both the cell left and the cell entered
            c.prove("step.both-cells", c.And(update_current, update_next))
            vec.update(left=(cur, lambda p: FLAT(c, gx(p), gy(p)), "i"), entered=(nxt, lambda p: FLAT(c, nx(p), ny(p)), "i"))
            for n, (got, want, t) in vec.items():
                c.forall("step." + n, (P,), lambda p: c.Iff(c.at(got, p), want(p)) if t == "b" else c.eq(c.at(got, p), want(p)))
        else:
            # the parcels that stop at the edge: once more, in the edge cell
            c.prove("edge.entered-cell-only", c.And(c.Not(update_current), update_next))
            e = m.ghost_e
            vec.update(entered=(nxt, lambda p: FLAT(c, nx(p), ny(p)), "i"))
            for n, (got, want, t) in vec.items():
                w = c.mk((P,), want, t)[e]
                c.prove("edge.number." + n, c.eq(c.shape(got)[0], c.shape(w)[0]))
                c.forall("edge." + n, (c.shape(w)[0],), lambda q: c.Iff(c.at(got, q), c.at(w, q)) if t == "b" else c.eq(c.at(got, q), c.at(w, q)))
        m.ghost_u = m.ghost_u + 1

    def loops_(walk, new, step, L0_, CTR, st):
        nx, ny = c.snap(m.ghost_nx), c.snap(m.ghost_ny)
        c.forall("loops-checked-at-new-position", (P,), lambda p: c.eq(c.at(new, p), FLAT(c, nx(p), ny(p))))
        c.prove("loops-checked-with-step-and-inlet-length", c.And(c.eq(step, m.ghost_n + 1), c.eq(L0_, L0)))
        s = c.cx.serial
        hit = lambda p: c.uf("hit%d" % s, [p], "B")
        jx, jy, fl = (lambda p, q=q: c.uf("%s%d" % (q, s), [p], "I") for q in ("jx", "jy", "looped"))
        # contract (C03.loops): moved only if not finished and beyond the inlet section; into rows L0..L-2, columns 1..W-2
        c.axiom(["hit%d" % s], 1, lambda p: c.Implies(hit(p), c.And(c.eq(c.ite(step > L0, 1, 0), 1), FLAT(c, nx(p), ny(p)) > 0)))
        c.axiom(["jx%d" % s], 1, lambda p: c.And(L0 <= jx(p), jx(p) <= L - 2))
        c.axiom(["jy%d" % s], 1, lambda p: c.And(1 <= jy(p), jy(p) <= W - 2))
        c.axiom(["looped%d" % s], 1, lambda p: c.And(0 <= fl(p), fl(p) <= 1, c.Implies(c.eq(fl(p), 1), hit(p))))
        x, y = (lambda p: c.ite(hit(p), jx(p), nx(p))), (lambda p: c.ite(hit(p), jy(p), ny(p)))
        m.ghost_nx, m.ghost_ny = c.mk((P,), x, "i"), c.mk((P,), y, "i")
        m.ghost_flag = c.mk((P,), fl, "i")
        v0 = c.snap(m.ghost_valid)
        m.ghost_valid = c.mk((P,), lambda p: c.ite(c.eq(fl(p), 1), 0, v0(p)), "i")
        return c.mk((P,), lambda p: FLAT(c, x(p), y(p)), "i"), c.mk((P,), fl, "i")

    def bound(self, inds):
        nx, ny, fl = c.snap(m.ghost_nx), c.snap(m.ghost_ny), c.snap(m.ghost_flag)
        c.forall("edge-checked-at-new-position", (P,), lambda p: c.eq(c.at(inds, p), FLAT(c, nx(p), ny(p))))
        edge = lambda p: c.eq(C(nx(p), ny(p)), -1)
        m.ghost_n = m.ghost_n + 1
        m.ghost_x = c.mk((P,), lambda p: c.ite(edge(p), 0, nx(p)), "i")
        m.ghost_y = c.mk((P,), lambda p: c.ite(edge(p), 0, ny(p)), "i")
        gone = lambda p: c.And(edge(p), c.eq(fl(p), 1))
        m.ghost_wx = _set_col(c, m.ghost_wx, m.ghost_n, lambda p: c.ite(gone(p), 0, nx(p)), P, smax)
        m.ghost_wy = _set_col(c, m.ghost_wy, m.ghost_n, lambda p: c.ite(gone(p), 0, ny(p)), P, smax)
        g0 = c.snap(m.ghost_gone)
        m.ghost_gone = c.mk((P,), lambda p: c.Or(g0(p), gone(p)), "b")
        if pid == "C08":
            c.prove("updated-once-per-step", c.eq(m.ghost_u, 1))
            m.ghost_e = c.mk((P,), edge, "b")
            m.ghost_u, m.ghost_second = 0, True
        return c.mk((P,), edge, "b")

    c.contract("get_inlet_weights_water", lambda self: c.ones((hi - lo,)))
    c.contract("get_start_indices", starts)
    c.contract("get_water_weight_array", weights)
    c.contract("_choose_next_directions", choose)
    c.contract("_calculate_new_inds", newpos)
    c.contract("update_Q", updq)
    c.contract("_check_for_loops", loops_)
    c.contract("check_for_boundary", bound)
    c.call(m.run_water_iteration)
    if pid == "C08":
        c.forall("stopped-parcels-added-at-the-edge", (P,), lambda p: c.Or(c.eq(m.ghost_u, 1), c.Not(c.at(m.ghost_e, p))))
        return
    wx, wy, n = m.ghost_wx, m.ghost_wy, m.ghost_n
    if pid == "C09":
        wk, fl = m.free_surf_walk_inds, m.free_surf_flag
        c.prove("one-walk-per-parcel", c.And(c.eq(c.shape(wk)[0], P), c.shape(wk)[1] > n, c.eq(c.shape(fl)[0], P)))
        c.forall("walk-recorded", (P, n + 1), lambda p, s: c.eq(c.at(wk, p, s), FLAT(c, c.at(wx, p, s), c.at(wy, p, s))))
        # a parcel that is moved from a loop onto the edge leaves no record of reaching it
        c.forall("flagged-if-looped", (P,), lambda p: c.Or(c.at(m.ghost_gone, p), c.eq(c.at(fl, p), c.at(m.ghost_valid, p))))
        return
    c.forall("starts-in-inlet", (P,), lambda p: c.And(c.eq(c.at(wx, p, 0), 0), lo <= c.at(wy, p, 0), c.at(wy, p, 0) < hi))
    wk = m.free_surf_walk_inds
    c.prove("room", c.And(c.eq(c.shape(wk)[0], P), c.shape(wk)[1] > n))
    c.forall("recorded", (P, n + 1), lambda p, s: c.eq(c.at(wk, p, s), FLAT(c, c.at(wx, p, s), c.at(wy, p, s))))
    c.forall("never-on-land", (P, n + 1), lambda p, s: _cell_ok(c, c.at(wx, p, s), c.at(wy, p, s)))
    c.forall("steps", (P, n + 1), lambda p, s: c.Implies(s >= 1, lambda: _step_ok(
        c, c.at(wx, p, s - 1), c.at(wy, p, s - 1), c.at(wx, p, s), c.at(wy, p, s), s)))
    c.forall("until-edge-or-limit", (P,), lambda p: c.Or(c.eq(n, smax), c.And(c.eq(c.at(m.ghost_x, p), 0), c.eq(c.at(m.ghost_y, p), 0))))


STEPS = {"run_water_iteration": [Loop(1, "steps", _inv, auto=False)]}


@goal("C03", "water_walks", conc=False, budget=150, loops=STEPS)
def water_walks(c):
    _walks(c, "C03")


@goal("C09", "walks_and_flags", conc=False, budget=150, loops=STEPS)
def walks_and_flags(c):
    """the walks and flags the surface is rebuilt from are those of the iteration: flagged exactly if ever looped"""
    _walks(c, "C09")


@goal("C08", "every_step_accumulated", conc=False, budget=150, loops=STEPS)
def every_step(c):
    """every step of every parcel is accumulated once, in the cells left and entered; stopped parcels once more"""
    _walks(c, "C08")


@goal("C03", "adjacent_step_stays_in_domain", n=300)
def adjacent_lemma(c):
    """lemma: with the documented geometry and routing probabilities (C01, C22) a step of positive probability from
    a cell that is neither land nor edge ends on the grid and off land"""
    L, W = dims(c)
    x, y = c.int("x", 0, None, hint=(0, 5)), c.int("y", 1, None, hint=(1, 6))
    k = c.choice("k", list(range(9)))
    di, dj = NB[k]
    c.assume(x < L - 1, y < W - 1)
    # C01: positive probability only where the neighbour is off land and not upstream of the grid
    ct = c.arr("cell_type", (L, W), "i", vals=CELLS)
    pos = c.bool("positive")
    c.assume(c.Implies(pos, c.And(x + di >= 0, k != 4)))
    if x + di < 0 if not c.sym else not c.case(x + di >= 0):
        return
    C = c.snap(ct)
    c.assume(c.Implies(pos, c.ne(C(x + di, y + dj), -2)))
    c.prove("on-grid", c.And(0 <= x + di, x + di < L, 0 <= y + dj, y + dj < W))
    c.prove("off-land", c.Implies(pos, c.ne(C(x + di, y + dj), -2)))


@goal("C03", "water_paths", sym=False, n=60, bounded="whole water iterations on a 12 x 20 domain, up to 12 parcels, 80 steps")
def water_paths(c):
    """recorded paths of real water iterations"""
    from .sediment import domain_model
    from .walks import jump
    m = domain_model(c)
    L, W = m.L, m.W
    P = c.int("Np_water", 1, None, hint=(1, 12))
    c.set(m, _Np_water=P, free_surf_flag=c.ones((P,), "i"), free_surf_walk_inds=c.zeros((P, c.int("columns", 1, None, hint=(2, 20))), "i"),
          mod_water_weight=c.ones((L, W)), _stepmax=c.int("steps", 4, None, hint=(4, 80)))
    c.call(m.init_water_iteration)
    c.call(m.run_water_iteration)
    wk, wts, ct = m.free_surf_walk_inds, m.water_weights, m.cell_type
    inl = set(int(x) for x in m.inlet)
    for p in range(P):
        path = [int(v) for v in wk[p]]
        c.prove("starts-in-inlet", path[0] in inl)
        end = None
        for s in range(1, len(path)):
            a, b = path[s - 1], path[s]
            if b == 0:
                end = s - 1
                break
            x0, y0, x1, y1 = a // W, a % W, b // W, b % W
            c.prove("on-grid", 0 <= x1 < L and 0 <= y1 < W)
            c.prove("never-on-land", ct[x1, y1] != -2)
            c.prove("not-past-edge", ct[x0, y0] != -1)
            ks = [k for k in range(9) if (x1 - x0, y1 - y0) == NB[k] and k != 4 and wts[x0, y0, k] > 0]
            if not ks:
                # moved out of a loop: some neighbour of positive probability was visited before
                prev = [q for q in path[:s] if q >= m.L0 * W]
                ok = False
                for k in range(9):
                    if wts[x0, y0, k] > 0:
                        q = (x0 + NB[k][0]) * W + y0 + NB[k][1]
                        if q in prev:
                            ok = ok or (x1, y1) == jump(c, q // W, q % W, m.L0, m.CTR, L, W)
                c.prove("adjacent-or-moved-out-of-a-loop", ok and s > m.L0)
        c.prove("nothing-after-the-end", end is None or all(v == 0 for v in path[end + 1:]))
        if end is None:
            end = len(path) - 1
        last = path[end]
        c.prove("until-edge-or-limit-or-flagged", ct[last // W, last % W] == -1 or end >= m.stepmax or m.free_surf_flag[p] == 0)


@goal("C08", "discharge_end_to_end", sym=False, n=60, bounded="whole water iterations on a 12 x 20 domain, up to 12 parcels, 80 steps, "
      "whose steps follow from the recorded paths")
def discharge_end_to_end(c):
    """the accumulated fields of real water iterations against the recorded paths"""
    from .sediment import domain_model
    m = domain_model(c)
    L, W = m.L, m.W
    P = c.int("Np_water", 1, None, hint=(1, 12))
    c.set(m, _Np_water=P, free_surf_flag=c.ones((P,), "i"), free_surf_walk_inds=c.zeros((P, c.int("columns", 1, None, hint=(2, 20))), "i"),
          mod_water_weight=c.ones((L, W)), _stepmax=c.int("steps", 4, None, hint=(4, 80)))
    c.call(m.init_water_iteration)
    c.call(m.run_water_iteration)
    import numpy as np
    wk, ct = m.free_surf_walk_inds, m.cell_type
    q = m.Qp_water / m._dx / 2
    x, y, w = np.zeros((L, W)), np.zeros((L, W)), np.zeros((L, W))
    starts = {}
    from .walks import jump
    wts = m.water_weights

    def add(u, i, j):
        d = (i * i + j * j) ** 0.5
        x.flat[u] += i / d
        y.flat[u] += j / d
        w.flat[u] += q

    for p in range(P):
        path = [int(v) for v in wk[p]]
        path = path[:path.index(0)] if 0 in path else path
        starts[path[0]] = starts.get(path[0], 0) + 1
        # a parcel moved from a loop onto the edge leaves no record of that step
        gone = m.free_surf_flag[p] == 0 and ct.flat[path[-1]] != -1 and len(path) <= m.stepmax
        for s in range(1, len(path) + gone):
            a, b = path[s - 1], path[s] if s < len(path) else None
            seen = {v for v in path[:s] if v >= m.L0 * W} if s > m.L0 else set()
            ways = []  # (row step, column step, cell moved to from a loop)
            for k in range(9):
                i, j = NB[k]
                if k != 4 and wts[a // W, a % W, k] > 0:
                    v = a + i * W + j
                    if v in seen:
                        t = jump(c, v // W, v % W, m.L0, m.CTR, L, W)
                        t = int(t[0]) * W + int(t[1])
                        if t == b or b is None and ct.flat[t] == -1:
                            ways.append((i, j, t))
                    elif v == b:
                        ways.append((i, j, v))
            c.assume(len(ways) == 1)
            i, j, t = ways[0]
            add(a, i, j)
            add(a + i * W + j, i, j)
            if ct.flat[t] == -1:
                add(t, i, j)
    for s in range(L * W):
        n = starts.get(s, 0)  # the release itself is counted in the start cell once, or once per parcel
        c.prove("direction-downstream", any(abs(m.qxn.flat[s] - x.flat[s] - k) < 1e-3 for k in {min(n, 1), n}))
        c.prove("direction-transverse", abs(m.qyn.flat[s] - y.flat[s]) < 1e-3)
        c.prove("magnitude", any(abs(m.qwn.flat[s] - w.flat[s] - k * q) < 1e-3 * max(1, q) + 1e-5 * w.flat[s] for k in {min(n, 1), n}))


@goal("C09", "surface_end_to_end", sym=False, n=60, bounded="whole water iterations on a 12 x 20 domain, up to 12 parcels, 80 steps")
def surface_end_to_end(c):
    """visits and elevations of real water iterations against the recorded paths and the loops in them"""
    from .sediment import domain_model
    from .surface import Walks
    from .walks import jump
    m = domain_model(c)
    L, W = m.L, m.W
    P = c.int("Np_water", 1, None, hint=(1, 12))
    K = c.int("columns", 1, None, hint=(2, 20))
    c.set(m, _Np_water=P, free_surf_flag=c.arr("old_flag", (P,), "i", vals=(0, 1)),
          free_surf_walk_inds=c.arr("old_walk", (P, K), "i", lo=0, hi=L * W - 1),
          mod_water_weight=c.ones((L, W)), _stepmax=c.int("steps", 4, None, hint=(4, 80)))
    c.call(m.init_water_iteration)
    c.call(m.run_water_iteration)
    import numpy as np
    wk, ct, wts = m.free_surf_walk_inds.copy(), m.cell_type, m.water_weights
    F = {n: (lambda i, j, a=np.array(getattr(m, n), dtype=float): float(a[i, j])) for n in ("uw", "ux", "uy", "depth")}
    g = Walks(c, m, F, None, None, P, 0)
    flat = np.abs(m.stage - m._H_SL)
    vis, tot = np.zeros((L, W)), np.zeros((L, W))
    for p in range(P):
        path = [int(v) for v in wk[p]]
        path = path[:path.index(0)] if 0 in path else path
        if ct.flat[path[-1]] != -1:
            continue
        flagged = False
        for s in range(1, len(path)):
            a, b = path[s - 1], path[s]
            seen = {v for v in path[:s] if v >= m.L0 * W} if s > m.L0 else set()
            ways = []
            for k in range(9):
                if k != 4 and wts[a // W, a % W, k] > 0:
                    v = a + NB[k][0] * W + NB[k][1]
                    if v in seen:
                        t = jump(c, v // W, v % W, m.L0, m.CTR, L, W)
                        if int(t[0]) * W + int(t[1]) == b:
                            d = float(flat.flat[v])
                            c.assume(abs(d - 0.1) > 1e-6)
                            ways.append(d >= 0.1)
                    elif v == b:
                        ways.append(False)
            c.assume(len(set(ways)) == 1)
            flagged = flagged or ways[0]
        if flagged:
            continue
        h, oc, dh = float(m._H_SL), True, 0
        cells = [(v // W, v % W) for v in path]
        for t in range(len(cells) - 2, -1, -1):
            oc, dh = g.step(oc, dh, cells[t], cells[t + 1], m._dx)
            h = h + dh
            vis[cells[t]] += 1
            tot[cells[t]] += h
    c.stub("finalize_free_surface", lambda self: None)
    c.call(m.compute_free_surface)
    c.forall("visits", (L, W), lambda i, j: c.eq(c.at(m.sfc_visit, i, j), vis[i, j]))
    c.forall("elevations", (L, W), lambda i, j: abs(c.at(m.sfc_sum, i, j) - tot[i, j]) < 1e-3 * (1 + abs(tot[i, j])))
    e, d, H = m.eta, m.depth, m.Hnew
    c.forall("surface", (L, W), lambda i, j: abs(c.at(H, i, j) - max(
        tot[i, j] / vis[i, j] if vis[i, j] else float(e[i, j]) + float(d[i, j]), float(m._H_SL), float(e[i, j]))) < 1e-3 * (1 + abs(tot[i, j])))
