"""C08 discharge accumulation and relaxation."""
from .common import *


def _acc(name):
    def inv(c, e):
        q = e.written(1)
        k = e.k
        S = c.ghost[name]
        n = c.shape(q)[0]
        return c.FA((n,), lambda i: c.eq(c.at(q, i), e.entry_written(q, i) + S(i, k)), on=q)
    return inv


def parcels(c, n, P=None):
    P = c.int("P", 1, None, hint=(1, 8)) if P is None else P
    inds = c.arr("inds", (P,), "i", lo=0, hi=n - 1)
    step = c.arr("dirstep", (P,), "i", vals=[-1, 0, 1])
    astep = c.arr("astep", (P,), "b")
    dist = c.arr("dist", (P,), vals=[1, 2])
    return P, inds, step, astep, dist


@goal("C08", "direction_accumulation", n=200, loops={"_update_dirQfield": [Loop(1, "sum", _acc("S"))]})
def dirq(c):
    n = c.int("n", 1, None, hint=(1, 8))
    q = c.arr("q", (n,))
    P, inds, step, astep, dist = parcels(c, n)
    q0, I, D, A, X = [c.snap(x) for x in (q, inds, step, astep, dist)]
    S = c.psum("S", 1, lambda i, p: c.ite(c.And(A(p), c.eq(I(p), i)), D(p) / X(p), 0))
    c.ghost = {"S": S}
    r = c.call(c.fn("water_tools", "_update_dirQfield"), q, dist, inds, astep, step)
    c.prove("shape", c.eq(c.shape(r)[0], n))
    c.forall("unit-steps-added", (n,), lambda i: c.eq(c.at(r, i), q0(i) + S(i, P)))


@goal("C08", "magnitude_accumulation", n=200, loops={"_update_absQfield": [Loop(1, "sum", _acc("S"))]})
def absq(c):
    n = c.int("n", 1, None, hint=(1, 8))
    q = c.arr("q", (n,))
    P, inds, step, astep, dist = parcels(c, n)
    Qp, dx = c.real("Qp", pos=True), c.real("dx", pos=True)
    q0, I, A = [c.snap(x) for x in (q, inds, astep)]
    S = c.psum("S", 1, lambda i, p: c.ite(c.And(A(p), c.eq(I(p), i)), Qp / dx / 2, 0))
    c.ghost = {"S": S}
    r = c.call(c.fn("water_tools", "_update_absQfield"), q, dist, inds, astep, Qp, dx)
    c.prove("shape", c.eq(c.shape(r)[0], n))
    c.forall("half-parcel-added", (n,), lambda i: c.eq(c.at(r, i), q0(i) + S(i, P)))


@goal("C08", "update_Q", n=150)
def update_Q(c):
    L, W = dims(c)
    m = model(c, L, W)
    Qp = c.real("Qp", pos=True)
    qxn, qyn, qwn = c.arr("qxn", (L, W)), c.arr("qyn", (L, W)), c.arr("qwn", (L, W))
    P = c.int("P", 1, None, hint=(1, 8))
    cur = c.arr("cur", (P,), "i", lo=0, hi=L * W - 1)
    nxt = c.arr("next", (P,), "i", lo=0, hi=L * W - 1)
    js, is_ = c.arr("jstep", (P,), "i", vals=[-1, 0, 1]), c.arr("istep", (P,), "i", vals=[-1, 0, 1])
    astep, dist = c.arr("astep", (P,), "b"), c.arr("dist", (P,), vals=[1, 2])
    c.set(m, qxn=qxn, qyn=qyn, qwn=qwn, Qp_water=Qp)
    CU, NX, J, I, A, D = [c.snap(x) for x in (cur, nxt, js, is_, astep, dist)]
    x0, y0, w0 = c.snap(qxn), c.snap(qyn), c.snap(qwn)

    def tot(ix, st):
        return c.psum("t", 1, lambda n, p: c.ite(c.And(A(p), c.eq(ix(p), n)), st(p) / D(p), 0))

    def totw(ix):
        return c.psum("w", 1, lambda n, p: c.ite(c.And(A(p), c.eq(ix(p), n)), Qp / m._dx / 2, 0))
    Sx = {0: tot(CU, J), 1: tot(NX, J)}
    Sy = {0: tot(CU, I), 1: tot(NX, I)}
    Sw = {0: totw(CU), 1: totw(NX)}

    def which(a, opts):
        for k, o in enumerate(opts):
            if c.same_array(a, o):
                return k
        raise Skip("argument of accumulation not recognised")

    def dirc(qfield, d, inds, a, dirstep):
        n, s = which(inds, (cur, nxt)), which(dirstep, (js, is_))
        which(d, (dist,)), which(a, (astep,))
        S = (Sx, Sy)[s][n]
        g = c.snap(qfield)
        return c.mk(c.shape(qfield), lambda i: g(i) + S(i, P))

    def absc(qfield, d, inds, a, Q, dx):
        n = which(inds, (cur, nxt))
        which(a, (astep,))
        c.prove("parcel-discharge", c.And(c.eq(Q, Qp), c.eq(dx, m._dx)))
        g = c.snap(qfield)
        return c.mk(c.shape(qfield), lambda i: g(i) + Sw[n](i, P))
    c.contract("_update_dirQfield", dirc)
    c.contract("_update_absQfield", absc)
    uc, un = c.choice("update", [(True, True), (False, True), (True, False)])
    c.call(m.update_Q, dist, cur, nxt, astep, js, is_, update_current=uc, update_next=un)

    def post(i, j):
        n = i * W + j
        t = lambda S: (S[0](n, P) if uc else 0) + (S[1](n, P) if un else 0)
        return {"x": c.eq(c.at(m.qxn, i, j), x0(i, j) + t(Sx)), "y": c.eq(c.at(m.qyn, i, j), y0(i, j) + t(Sy)),
                "magnitude": c.eq(c.at(m.qwn, i, j), w0(i, j) + t(Sw))}

    c.forall("fields", (L, W), post)


@goal("C08", "update_flow_field", n=300)
def flow_field(c):
    L, W = dims(c)
    m = model(c, L, W)
    lo, hi = inlet_range(c, W)
    names = ["qxn", "qyn", "qx", "qy", "qw"]
    a = {n: c.arr(n, (L, W), pts=[0]) for n in names}
    qwn = c.arr("qwn", (L, W), lo=0, pts=[0])
    om, omi = c.real("omega_flow", lo=0, hi=1), c.real("omega_flow_iter", pos=True, hint=(0, 2))
    it = c.int("iteration", 0, None, hint=(0, 2), pts=[0])
    c.set(m, qwn=qwn, inlet=c.arange(lo, hi), _omega_flow=om, omega_flow_iter=omi, **a)
    X, Y, X0, Y0, Wn = [c.snap(a[n]) for n in ("qxn", "qyn", "qx", "qy")] + [c.snap(qwn)]
    c.call(m.update_flow_field, it)

    def post(i, j):
        x, y, w = X(i, j), Y(i, j), Wn(i, j)
        d = c.sqrt(x * x + y * y)
        inl = c.And(c.eq(i, 0), lo <= j, j < hi)
        nx, ny, nw = c.at(m.qx, i, j), c.at(m.qy, i, j), c.at(m.qw, i, j)
        first = c.eq(m._time_iter, 0)
        o = c.ite(first, 1, c.ite(c.eq(it, 0), om, omi))
        flow = c.Or(c.ne0(x), c.ne0(y))
        blend = lambda new, v, u, v0: c.eq(new * d, v * w * o + (1 - o) * v0 * d)
        return {
            "x": c.Implies(c.And(c.Not(inl), flow), lambda: blend(nx, x, w, X0(i, j))),
            "y": c.Implies(c.And(c.Not(inl), flow), lambda: blend(ny, y, w, Y0(i, j))),
            "x-unvisited": c.Implies(c.And(c.Not(inl), c.Not(flow)), c.eq(nx, (1 - o) * X0(i, j))),
            "y-unvisited": c.Implies(c.And(c.Not(inl), c.Not(flow)), c.eq(ny, (1 - o) * Y0(i, j))),
            "magnitude": c.And(c.le(0, nw) if not c.sym else c.Implies(c.Not(inl), c.le(0, nw)),
                               c.Implies(c.Not(inl), c.eq(nw * nw, nx * nx + ny * ny))),
            "inlet": c.Implies(inl, c.And(c.eq(nx, m.qw0), c.eq(ny, 0), c.eq(nw, m.qw0))),
        }

    c.forall("discharge", (L, W), post)


@goal("C08", "init_water_iteration", n=60)
def init_water(c):
    L, W = dims(c)
    m = model(c, L, W)
    P, K = c.int("P", 1, None, hint=(1, 4)), c.int("K", 1, None, hint=(1, 5))
    for n in ("qxn", "qyn", "qwn", "sfc_visit", "sfc_sum"):
        c.set(m, **{n: c.arr(n, (L, W))})
    stage, depth, ct = c.arr("stage", (L, W)), c.arr("depth", (L, W)), c.arr("ct", (L, W), "i", vals=CELLS)
    c.set(m, stage=stage, depth=depth, cell_type=ct, free_surf_flag=c.arr("flag", (P,), "i"),
          free_surf_walk_inds=c.arr("walk", (P, K), "i"))
    s, d, t = c.snap(stage), c.snap(depth), c.snap(ct)
    c.call(m.init_water_iteration)
    c.forall("cleared", (L, W), lambda i, j: {n: c.eq(c.at(getattr(m, n), i, j), 0)
                                               for n in ("qxn", "qyn", "qwn")})
    c.forall("surface-sums-cleared", (L, W), lambda i, j: c.And(c.eq(c.at(m.sfc_visit, i, j), 0), c.eq(c.at(m.sfc_sum, i, j), 0)))
    c.forall("walks-cleared", (P, K), lambda p, k: c.eq(c.at(m.free_surf_walk_inds, p, k), 0))
    c.forall("flags-set", (P,), lambda p: c.eq(c.at(m.free_surf_flag, p), 1))
    c.forall("fields-unchanged", (L, W), lambda i, j: c.And(c.eq(c.at(m.stage, i, j), s(i, j)), c.eq(c.at(m.depth, i, j), d(i, j)),
                                                          c.eq(c.at(m.cell_type, i, j), t(i, j))))
