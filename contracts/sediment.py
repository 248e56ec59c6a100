"""C02 sediment weights, C03 sediment walk, C04 conservation, C05 deposition and erosion."""
from .common import *

FIELDS = ("eta", "stage", "depth", "uw", "ux", "uy", "qw", "qx", "qy", "qs", "Vp_dep_mud", "Vp_dep_sand", "mod_erosion")


def router(c, kind, L, W):
    cls = c.fn("sed_tools", {"sand": "SandRouter", "mud": "MudRouter"}[kind])
    u0 = c.real("u0", pos=True, hint=(0.5, 2), pts=[1])
    h0 = c.real("h0", pos=True, hint=(0.5, 4), pts=[1])
    r = c.new(cls)
    c.set(r, _dx=c.real("dx", pos=True, hint=(1, 4), pts=[1, 2]), _dt=c.real("dt", pos=True, hint=(1, 4)),
          u_max=2 * u0, dry_depth=c.min(0.1, 0.1 * h0), _beta=c.real("beta", pos=True, hint=(1, 4), pts=[1, 3]),
          Vp_sed=c.real("Vp_sed", pos=True, hint=(0.5, 2)), Vp_res=c.real("Vp_res", lo=0, hint=(0, 2), pts=[0, 1]),
          stepmax=c.int("stepmax", 1, None, hint=(1, 6)))
    if kind == "sand":
        c.set(r, qs0=c.real("qs0", pos=True, hint=(0.125, 2)), _u0=u0, U_ero_sand=c.real("U_ero", pos=True, hint=(0.5, 2), pts=[1]),
              _f_bedload=c.real("f_bedload", 0, 1))
    else:
        c.set(r, U_dep_mud=c.real("U_dep", pos=True, hint=(0.25, 1), pts=[0.5]), U_ero_mud=c.real("U_ero", pos=True, hint=(0.5, 2), pts=[1, 1.5]),
              _lambda=c.real("lam", 0, 1, pts=[1, 0.5]))
    F = {}
    opt = dict(depth=dict(lo=0, pts=[0]), uw=dict(lo=0, pts=[0, 0.5, 1, 1.5]), qw=dict(lo=0, pts=[0]), qs=dict(lo=0, pts=[0]),
               Vp_dep_mud=dict(lo=0), Vp_dep_sand=dict(lo=0), mod_erosion=dict(lo=0, pts=[1, 0]), eta=dict(pts=[0, -1]),
               stage=dict(pts=[0]))
    for n in FIELDS:
        if n == "qs" and kind == "mud":
            continue
        a = c.arr(n, (L, W), **opt.get(n, {}))
        c.set(r, **{n: a})
        F[n] = c.snap(a)
    a = c.arr("cell_type", (L, W), "i", vals=CELLS)
    c.set(r, cell_type=a, pad_depth=c.arr("pad_depth", (L + 2, W + 2), lo=0))
    F["cell_type"], F["pad_depth"] = c.snap(a), c.snap(r.pad_depth)
    return r, F


def eroded(c, mod, V, U, Ue, b):
    return mod * V * (c.pow(U, b) - c.pow(Ue, b)) / c.pow(Ue, b)


def spec_change(c, kind, r, F, px, py):
    """(case, volume) the documented rules give to the cell"""
    U, st, e = F["uw"](px, py), F["stage"](px, py), F["eta"](px, py)
    mod = F["mod_erosion"](px, py)
    d = st - e
    quarter = c.abs(d) / 4 * (r._dx * r._dx)
    lim = lambda v: c.ite(d < 0, 0, c.min(v, quarter))
    b = r._beta
    if kind == "sand":
        cap = r.qs0 * r._f_bedload / c.pow(r._u0, b) * c.pow(U, b)
        q = F["qs"](px, py)
        c.clear(q, cap)
        if c.case(q > cap):
            return "deposit", lim(r.Vp_res)
        if c.case(c.And(U > r.U_ero_sand, q < cap)):
            return "erode", -c.min(eroded(c, mod, r.Vp_sed, U, r.U_ero_sand, b), quarter)
        return "none", 0
    # erosion threshold is checked after deposition
    if c.case(U > r.U_ero_mud):
        return "erode", -c.min(eroded(c, mod, r.Vp_sed, U, r.U_ero_mud, b), quarter)
    if c.case(U < r.U_dep_mud):
        Ud = r.U_dep_mud
        return "deposit", lim(r._lambda * r.Vp_res * (c.pow(Ud, b) - c.pow(U, b)) / c.pow(Ud, b))
    return "none", 0


def monotone(c, kind, r, F, px, py):
    """x -> x**beta is increasing on the non-negative reals for beta > 0"""
    if not c.sym:
        return
    U, b = F["uw"](px, py), r._beta
    p0 = c.pow(U, b)
    for T in ([r.U_ero_sand] if kind == "sand" else [r.U_ero_mud, r.U_dep_mud]):
        p1 = c.pow(T, b)
        c.assume(p1 > 0, p0 >= 0, c.Implies(U > T, p0 > p1), c.Implies(U < T, p0 < p1))
    c.trust("x**beta is non-negative and increasing in x >= 0 for beta > 0")


def exchange(c, kind, pid):
    L, W = dims(c)
    r, F = router(c, kind, L, W)
    px, py = c.int("px", 0, None, hint=(0, 4)), c.int("py", 0, None, hint=(0, 4))
    c.assume(px < L, py < W)
    if kind == "mud":
        c.assume(r.U_dep_mud <= r.U_ero_mud)
    monotone(c, kind, r, F, px, py)
    V0, dx2 = r.Vp_res, r._dx * r._dx
    case, ch = spec_change(c, kind, r, F, px, py)
    c.call(r._deposit_or_erode, px, py)
    at = lambda n: c.at(getattr(r, n), px, py)
    f0 = lambda n: F[n](px, py)
    here = lambda i, j: c.And(c.eq(i, px), c.eq(j, py))
    if pid == "C04":
        c.prove("parcel-plus-bed-volume-constant", c.eq(at("eta") * dx2 + r.Vp_res, f0("eta") * dx2 + V0))
        c.forall("no-other-cell", (L, W), lambda i, j: c.Implies(c.Not(here(i, j)), c.eq(c.at(r.eta, i, j), F["eta"](i, j))))
        c.prove("parcel-volume-not-negative", c.le(0, r.Vp_res))
        return
    got = (at("eta") - f0("eta")) * dx2
    c.prove("volume-by-the-rules." + case, c.eq(got, ch, tol=1e-6))
    c.prove("booked-from-parcel", c.eq(r.Vp_res, V0 - ch))
    quarter = c.abs(f0("stage") - f0("eta")) / 4 * dx2
    if case == "deposit":
        c.prove("deposit.not-negative", c.le(0, ch))
        c.prove("deposit.at-most-carried", c.le(ch, V0))
        c.prove("deposit.not-above-water", c.le(at("eta"), c.max(f0("stage"), f0("eta")), 1e-6))
    elif case == "erode":
        c.prove("erode.not-positive", c.le(ch, 0))
    c.prove("at-most-quarter-of-water", c.And(c.le(ch, quarter), c.le(-ch, quarter)))
    own, oth = ("Vp_dep_sand", "Vp_dep_mud") if kind == "sand" else ("Vp_dep_mud", "Vp_dep_sand")
    c.prove("deposit-booked-in-cell", c.eq(at(own), f0(own) + c.max(ch, 0)))
    d = at("depth")
    c.prove("depth-agrees", c.eq(d, c.max(0, f0("stage") - at("eta")), 1e-6))
    c.prove("padded-depth-agrees", c.eq(c.at(r.pad_depth, px + 1, py + 1), d))
    q = f0("qw")
    if c.case(d > 0):
        if c.sym or d > 1e-5:
            c.prove("speed-agrees", c.eq(at("uw"), c.min(r.u_max, q / d), 1e-4))
    else:
        c.prove("speed-kept-where-dry", c.eq(at("uw"), f0("uw")))
    if c.case(q > 0):
        c.prove("direction", c.And(c.eq(at("ux") * q, at("uw") * f0("qx"), 1e-6), c.eq(at("uy") * q, at("uw") * f0("qy"), 1e-6)))
    else:
        c.prove("direction-none", c.And(c.eq(at("ux"), 0), c.eq(at("uy"), 0)))

    def frame(i, j):
        out = {}
        for n in ("eta", "depth", "uw", "ux", "uy", own):
            out[n] = c.Implies(c.Not(here(i, j)), c.eq(c.at(getattr(r, n), i, j), F[n](i, j)))
        for n in ("stage", oth, "qw", "qx", "qy", "mod_erosion", "cell_type") + (("qs",) if kind == "sand" else ()):
            out[n] = c.eq(c.at(getattr(r, n), i, j), F[n](i, j))
        return out

    c.forall("only-this-cell", (L, W), frame)


@goal("C05", "sand_exchange", n=1500, budget=150)
def sand_exchange(c):
    exchange(c, "sand", "C05")


@goal("C05", "mud_exchange", n=1500, budget=150)
def mud_exchange(c):
    exchange(c, "mud", "C05")


@goal("C04", "sand_exchange", n=800, budget=100)
def sand_exchange4(c):
    exchange(c, "sand", "C04")


@goal("C04", "mud_exchange", n=800, budget=100)
def mud_exchange4(c):
    exchange(c, "mud", "C04")


# ---------------------------------------------------------------------- C02 routing weights
def raw_sed(c, row, al, depth, mod, ct, dry, theta):
    """specification of the nine probabilities: (allowed, weights)"""
    top = c.case(row == 0)
    allowed = [c.And(ct[k] != -2, k != 4, not (top and k < 3)) for k in range(9)]
    raw = [c.ite(c.And(allowed[k], depth[k] > dry), c.pow(depth[k] * mod[k], theta) * al[k], 0) for k in range(9)]
    for k in range(9):
        c.lemma("spec", c.le(0, c.pow(depth[k] * mod[k], theta)))
        c.lemma("specified-weight-%d-nonnegative" % k, c.le(0, raw[k]))
    return allowed, raw


def check_sed(c, w, allowed, raw):
    t = c.sum(raw)
    c.prove("never-negative", c.And(*[c.le(0, x) for x in w]))
    c.prove("sum-is-one", c.eq(c.sum(w), 1))
    c.prove("not-staying-not-land-not-offgrid", c.And(*[c.Implies(c.Not(allowed[k]), c.eq(w[k], 0)) for k in range(9)]))
    if c.case(t > 0):
        c.prove("proportional", c.And(*[c.eq(w[k], raw[k] / t) for k in range(9)]))
    else:
        inv = [c.ite(allowed[k], 1 / dist(c, k), 0) for k in range(9)]
        ti = c.sum(inv)
        c.prove("fallback-inverse-distance", c.And(*[c.eq(w[k] * ti, inv[k]) for k in range(9)]))


def _sed_cell(c, top):
    i = 0 if top else c.int("row", 1, None, hint=(1, 3))
    j = c.int("col", 0, None, hint=(0, 3))
    f = c.fn("sed_tools", "_get_weight_at_cell_sediment")
    al = c.arr("int", (9,), lo=0, pts=[0])
    depth = c.arr("depth", (9,), lo=0, pts=[0, 0.125])
    mod = c.arr("mod", (9,), lo=0, pts=[1, 1, 0, 0.5])
    ct = c.arr("ct", (9,), "i", vals=CELLS)
    dry = c.real("dry", pos=True, hint=(0.0625, 0.25), pts=[0.125])
    theta = c.real("theta", pos=True, hint=(0.5, 2), pts=[1])
    dst = c.mk((9,), lambda k: c.pick(k, [dist(c, n) for n in range(9)]))
    A = [c.elems(x) for x in (al, depth, mod, ct)]
    allowed, raw = raw_sed(c, i, *A, dry, theta)
    anyal = c.Or(*allowed)
    w, e = c.attempt(f, (i, j), al, depth, ct, dry, theta, dst, mod)
    if e is not None:
        c.prove("error-only-when-walled-in", c.Not(anyal))
        return
    c.prove("walled-in-rejected", anyal)
    check_sed(c, c.elems(w), allowed, raw)


@goal("C02", "cell_weights_inlet_row", n=800, budget=250)
def sed_weights0(c):
    _sed_cell(c, True)


@goal("C02", "cell_weights", n=1200, budget=250)
def sed_weights(c):
    _sed_cell(c, False)


def tables(c, r):
    c.set(r, ivec_flat=c.mk((9,), lambda k: c.pick(k, [NB[n][1] / dist(c, n) for n in range(9)])),
          jvec_flat=c.mk((9,), lambda k: c.pick(k, [NB[n][0] / dist(c, n) for n in range(9)])),
          iwalk_flat=c.const([x[1] for x in NB], "i"), jwalk_flat=c.const([x[0] for x in NB], "i"),
          distances_flat=c.mk((9,), lambda k: c.pick(k, [dist(c, n) for n in range(9)])))


def padded(c, r, L, W, n, pre, **kw):
    """router attribute holding the edge-padded field n"""
    a = c.arr(n, (L, W), **kw)
    s = c.snap(a)
    dt = kw.get("dt", "f")
    c.set(r, **{pre + n: c.mk((L + 2, W + 2), lambda i, j: s(clampi(c, i - 1, L), clampi(c, j - 1, W)), dt)})
    return s


@goal("C02", "routing_step", n=600, budget=150)
def routing_step(c):
    """one routing step of either router: the weights are those of the cell's neighbourhood,
    the pick is made with them, and the step is the picked direction"""
    L, W = dims(c)
    kind = c.choice("kind", ["sand", "mud"])
    r, F = router(c, kind, L, W)
    tables(c, r)
    px, py = c.int("px", 0, None, hint=(0, 4), pts=[0]), c.int("py", 0, None, hint=(0, 4))
    c.assume(px < L, py < W)
    stage, mod = F["stage"], padded(c, r, L, W, "mod_sed_weight", "pad_", lo=0, pts=[1, 1, 1, 0])
    ct = padded(c, r, L, W, "cell_type", "pad_", dt="i", vals=CELLS)
    c.set(r, cell_type=c.mk((L, W), ct, "i"), theta_sed=c.real("theta", pos=True, hint=(0.5, 2), pts=[1]),
          pad_stage=c.mk((L + 2, W + 2), lambda i, j: stage(clampi(c, i - 1, L), clampi(c, j - 1, W))))
    al, dep, md, cts = [], [], [], []
    for k in range(9):
        di, dj = NB[k]
        d = dist(c, k)
        a, b = clampi(c, px + di, L), clampi(c, py + dj, W)
        al.append(c.max(0, (F["qx"](px, py) * (di / d) + F["qy"](px, py) * (dj / d)) / d))
        dep.append(F["pad_depth"](px + 1 + di, py + 1 + dj))
        md.append(mod(a, b))
        cts.append(ct(a, b))
    picked = {}
    if c.sym:
        spec = [c.uf("sed_cell", [px, py, k]) for k in range(9)]

        def cell(ind, intw, depth, ctn, dry, theta, dst, modn):
            c.prove("cell.index", c.And(c.eq(ind[0], px), c.eq(ind[1], py)))
            for n, got, want in (("alignment", intw, al), ("depth", depth, dep), ("cell-type", ctn, cts), ("modifier", modn, md)):
                got = c.elems(got)
                c.prove("cell." + n, c.And(len(got) == 9, *[c.eq(x, y) for x, y in zip(got, want)]))
            c.prove("cell.parameters", c.And(c.eq(dry, r.dry_depth), c.eq(theta, r.theta_sed)))
            return c.mk((9,), lambda k: c.uf("sed_cell", [px, py, k]))

        def pick(w):
            w = c.elems(w)
            c.prove("picked-with-the-weights", c.And(len(w) == 9, *[c.eq(x, y) for x, y in zip(w, spec)]))
            picked["k"] = c.fresh_int("dir", 0, 8)
            return picked["k"]
        c.contract("_get_weight_at_cell_sediment", cell)
        c.contract("random_pick", pick)
    else:
        allowed, raw = raw_sed(c, px, al, dep, md, cts, r.dry_depth, r.theta_sed)
        c.assume(any(allowed))

        def saw(res, a, k):
            check_sed(c, c.elems(a[0]), allowed, raw)
            picked["k"] = int(res)
        c.after("random_pick", saw)
    res = c.call(r._choose_next_location, px, py)
    if "k" not in picked:
        raise Skip("random_pick not used")
    istep, jstep, d = res
    k = picked["k"]
    c.prove("step-is-picked-direction", c.And(c.eq(istep, c.pick(k, [x[1] for x in NB])), c.eq(jstep, c.pick(k, [x[0] for x in NB])),
                                              c.eq(d * d, c.pick(k, [x[0] ** 2 + x[1] ** 2 for x in NB])), c.le(0, d)))
    if not c.sym:
        c.prove("step-allowed", allowed[k])
    c.forall("frame", (L, W), lambda i, j: c.And(*[c.eq(c.at(getattr(r, n), i, j), F[n](i, j)) for n in
                                                   ("eta", "stage", "depth", "uw", "qx", "qy")]))


# ---------------------------------------------------------------------- walks
def _inv_walk(c, e):
    """the ghost parcel position is on the grid, off land and not past the edge; conservation"""
    r = e["self"]
    L, W, V, E = c.ghost
    ct = r.cell_type
    return [c.And(0 <= r.ghost_x, r.ghost_x < L, 0 <= r.ghost_y, r.ghost_y < W),
            c.Or(c.eq(r.ghost_n, 0), c.And(c.ne(c.at(ct, r.ghost_x, r.ghost_y), -2))),
            c.And(0 <= r.ghost_n, r.ghost_n <= r.stepmax),
            c.eq(r.Vp_res + r.ghost_bed, V),
            c.And(c.eq(e["px"], r.ghost_x), c.eq(e["py"], r.ghost_y)),
            c.And(*[c.eq(e[n], r.ghost_n) for n in e.counters() if n not in ("px", "py")]), c.eq(r.ghost_busy, 0),
            c.Iff(e["sed_continue"] if e.has("sed_continue") else True,
                  c.And(r.ghost_n < r.stepmax, c.Or(c.eq(r.ghost_n, 0), c.ne(c.at(ct, r.ghost_x, r.ghost_y), -1)))),
            ] + ([c.FA((L, W), lambda i, j: c.eq(c.at(r.qs, i, j), c.at(r.ghost_qs, i, j)), on=r.qs)] if c.goal.pid == "C05" else [])


def _walk(c, kind, pid):
    """the parcel walk, for every number of steps: contracts of the routing step (C02) and of the
    exchange (C05) stand for the bodies"""
    L, W = dims(c)
    r, F = router(c, kind, L, W)
    tables(c, r)
    py0 = c.int("py", 0, None, hint=(0, 4))
    c.assume(py0 < W, c.eq(r.Vp_res, r.Vp_sed))
    ct = F["cell_type"]
    px0 = 0
    # every cell outside the last row and column ring can be left: walks end at the edge
    V = r.Vp_res
    c.set(r, ghost_x=px0, ghost_y=py0, ghost_n=0, ghost_bed=0 * V, ghost_busy=0)
    if pid == "C05":
        c.set(r, ghost_qs=c.mk((L, W), F["qs"]))
    last = {}
    c.ghost = (L, W, V, F["eta"])

    def step(self, px, py):
        c.prove("step-from-current-cell", c.And(c.eq(px, self.ghost_x), c.eq(py, self.ghost_y)))
        c.prove("no-step-after-edge", c.Or(c.eq(self.ghost_n, 0), c.ne(c.at(self.cell_type, self.ghost_x, self.ghost_y), -1)))
        c.prove("no-step-after-limit", self.ghost_n < self.stepmax)
        c.prove("exchange-after-every-step", c.eq(self.ghost_busy, 0))
        k = c.fresh_int("dir", 0, 8)
        di, dj = c.pick(k, [x[0] for x in NB]), c.pick(k, [x[1] for x in NB])
        # contract of the routing step (C02, C03): to an on-grid neighbour that is not land
        c.assume(k != 4, 0 <= px + di, px + di < L, 0 <= py + dj, py + dj < W, c.ne(c.at(self.cell_type, px + di, py + dj), -2))
        last.update(x=px, y=py)
        self.ghost_x, self.ghost_y = px + di, py + dj
        self.ghost_n = self.ghost_n + 1
        self.ghost_busy = 1
        return dj, di, c.pick(k, [dist(c, n) if n != 4 else 0 for n in range(9)])

    def exchange_(self, px, py):
        c.prove("exchange-in-entered-cell", c.And(c.eq(px, self.ghost_x), c.eq(py, self.ghost_y), c.eq(self.ghost_busy, 1)))
        if pid == "C05":
            g, q, half = c.snap(self.ghost_qs), c.snap(self.qs), self.Vp_res / 2 / self._dt / self._dx
            at = lambda i, j, x, y: c.num(c.And(c.eq(i, x), c.eq(j, y)))
            c.forall("flux-of-every-step-added-to-cells-left-and-entered", (L, W), lambda i, j: c.eq(
                q(i, j), g(i, j) + half * (at(i, j, last["x"], last["y"]) + at(i, j, px, py))))
            self.ghost_qs = c.mk((L, W), q)
        d = c.fresh_real("dV")
        self.Vp_res = self.Vp_res - d
        self.ghost_bed = self.ghost_bed + d
        self.ghost_busy = 0

    c.contract("_choose_next_location", step)
    c.contract("_deposit_or_erode", exchange_)
    c.call(r._route_one_parcel, px0, py0)
    c.prove("stops-at-edge-or-limit", c.Or(c.eq(c.at(r.cell_type, r.ghost_x, r.ghost_y), -1), c.eq(r.ghost_n, r.stepmax)))
    c.prove("exchange-after-last-step", c.eq(r.ghost_busy, 0))
    if pid == "C05":
        c.forall("flux-of-steps-only", (L, W), lambda i, j: c.eq(c.at(r.qs, i, j), c.at(r.ghost_qs, i, j)))
    if pid == "C04":
        c.prove("volume-conserved", c.eq(r.Vp_res + r.ghost_bed, V))
        c.forall("bed-changed-by-exchange-only", (L, W), lambda i, j: c.And(
            c.eq(c.at(r.eta, i, j), F["eta"](i, j)), c.eq(c.at(r.depth, i, j), F["depth"](i, j))))


WALK = {"_route_one_parcel": [Loop(1, "walk", _inv_walk)]}


@goal("C03", "sand_walk", conc=False, budget=100, loops=WALK)
def sand_walk(c):
    _walk(c, "sand", "C03")


@goal("C03", "mud_walk", conc=False, budget=100, loops=WALK)
def mud_walk(c):
    _walk(c, "mud", "C03")


@goal("C04", "sand_walk", conc=False, budget=100, loops=WALK)
def sand_walk4(c):
    _walk(c, "sand", "C04")


@goal("C04", "mud_walk", conc=False, budget=100, loops=WALK)
def mud_walk4(c):
    _walk(c, "mud", "C04")


# ---------------------------------------------------------------------- sand flux bookkeeping
@goal("C05", "sand_flux_of_every_step", conc=False, budget=100, loops=WALK)
def sand_flux(c):
    """the flux compared with the capacity is that of all sand steps so far, the current one included"""
    _walk(c, "sand", "C05")


@goal("C05", "sand_flux", n=40, sym=False, bounded="whole sand phases on a 12 x 20 domain, up to 12 parcels")
def sand_flux_paths(c):
    _sediment_run(c, "C05")


@goal("C05", "partition_flux", n=400)
def partition_flux(c):
    """a moving sand parcel adds half its volume rate to the cell it leaves and to the cell it enters"""
    L, W = dims(c)
    r, F = router(c, "sand", L, W)
    p = [c.int(n, 0, None, hint=(0, 4)) for n in ("px0", "py0", "px", "py")]
    c.assume(p[0] < L, p[2] < L, p[1] < W, p[3] < W, c.Or(c.ne(p[0], p[2]), c.ne(p[1], p[3])))
    d = c.real("dist", lo=0, pts=[0, 1])
    c.call(r._partition_sediment, *p, d)
    half = r.Vp_res / 2 / r._dt / r._dx

    def post(i, j):
        n = c.num(c.Or(c.And(c.eq(i, p[0]), c.eq(j, p[1])), c.And(c.eq(i, p[2]), c.eq(j, p[3]))))
        return c.eq(c.at(r.qs, i, j), F["qs"](i, j) + c.ite(d > 0, half * n, 0))
    c.forall("flux", (L, W), post)


# ---------------------------------------------------------------------- all parcels of one type
RUN_FIELDS = ["eta", "stage", "depth", "cell_type", "uw", "ux", "uy", "Vp_dep_mud", "Vp_dep_sand", "qw", "qx", "qy"]


def _inv_run(c, e):
    r = e["self"]
    L, W, kind, q0, add, S = c.ghost
    out = [c.eq(r.ghost_n, e.k)]
    if kind == "sand":
        qs = r.qs
        out.append(c.FA((L, W), lambda i, j: c.eq(c.at(qs, i, j), q0(i, j) + c.ite(c.eq(i, 0), add * S(j, e.k), 0)), on=qs))
    return out


def _run(c, kind):
    L, W = dims(c)
    r, F = router(c, kind, L, W)
    P = c.int("P", 1, None, hint=(1, 6))
    start = c.arr("start", (P,), "i", lo=0, hi=W - 1)
    st = c.snap(start)
    kw = {n: getattr(r, n) for n in RUN_FIELDS}
    if kind == "sand":
        kw["qs"] = r.qs
    kw["mod_sed_weight"] = c.arr("mod_sed_weight", (L, W), lo=0)
    M = c.snap(kw["mod_sed_weight"])
    for n in RUN_FIELDS + ["qs"]:
        if n != "qs" or kind == "sand":
            c.set(r, **{n: None})
    S = c.psum("starts", 1, lambda j, t: c.num(c.eq(st(t), j)))
    half = r.Vp_sed / 2 / r._dt / r._dx
    c.ghost = (L, W, kind, F.get("qs"), half, S)
    c.set(r, ghost_n=0)

    def route(self, px, py):
        k = self.ghost_n
        c.prove("starts-in-first-row", c.eq(px, 0))
        c.prove("starts-in-its-column", c.And(k < P, c.eq(py, st(k))))
        c.prove("starts-with-full-volume", c.eq(self.Vp_res, self.Vp_sed))
        if kind == "sand":
            c.prove("start-flux", c.eq(c.at(self.qs, 0, py), F["qs"](0, py) + half * S(py, k + 1)))
        self.ghost_n = k + 1
        self.Vp_res = c.fresh_real("Vres") if c.sym else -1.0
    if c.sym:
        pad_contract(c)
    c.stub("_route_one_parcel", route)
    c.call(r.run, start_indices=start, **kw)
    c.prove("every-parcel-routed", c.eq(r.ghost_n, P))

    def pads(i, j):
        a, b = clampi(c, i - 1, L), clampi(c, j - 1, W)
        return {"stage": c.eq(c.at(r.pad_stage, i, j), F["stage"](a, b)), "depth": c.eq(c.at(r.pad_depth, i, j), F["depth"](a, b)),
                "cell-type": c.eq(c.at(r.pad_cell_type, i, j), F["cell_type"](a, b)),
                "modifier": c.eq(c.at(r.pad_mod_sed_weight, i, j), M(a, b))}
    c.forall("padded", (L + 2, W + 2), pads)
    c.forall("untouched", (L, W), lambda i, j: c.And(*[c.eq(c.at(getattr(r, n), i, j), F[n](i, j)) for n in RUN_FIELDS]))


RUN = {"run": [Loop(1, "parcels", _inv_run)]}


@goal("C04", "sand_run", n=100, budget=120, loops=RUN)
def sand_run(c):
    _run(c, "sand")


@goal("C05", "sand_release", n=100, budget=120, loops=RUN)
def sand_release(c):
    """a released parcel adds half its volume rate to its inlet cell"""
    _run(c, "sand")


@goal("C04", "mud_run", n=100, budget=120, loops=RUN)
def mud_run(c):
    _run(c, "mud")


# ---------------------------------------------------------------------- the two sediment phases
WRITTEN = {"sand": ["Vp_dep_mud", "Vp_dep_sand", "eta", "depth", "uw", "ux", "uy", "qs"],
           "mud": ["Vp_dep_mud", "Vp_dep_sand", "eta", "depth", "uw", "ux", "uy"]}
SET_BY = {"_dt": "_dt", "_dx": "_dx", "Vp_sed": "Vp_sed", "u_max": "u_max", "dry_depth": "dry_depth", "_beta": "_beta", "stepmax": "stepmax"}
OWN = {"sand": {"qs0": "qs0", "_u0": "_u0", "U_ero_sand": "U_ero_sand", "_f_bedload": "_f_bedload", "theta_sed": "theta_sand"},
       "mud": {"U_dep_mud": "U_dep_mud", "U_ero_mud": "U_ero_mud", "_lambda": "_lambda", "theta_sed": "theta_mud"}}
ARGS = ["eta", "stage", "depth", "cell_type", "uw", "ux", "uy", "Vp_dep_mud", "Vp_dep_sand", "qw", "qx", "qy"]


def sed_model(c, L, W):
    """model whose routers were just initialised"""
    m = model(c, L, W)
    lo, hi = inlet_range(c, W)
    pos = dict(pos=True, hint=(0.5, 2), pts=[1])
    c.set(m, inlet=c.arange(lo, hi), _Np_sed=c.int("Np_sed", 1, None, hint=(1, 12)), _f_bedload=c.real("f_bedload", 0, 1, pts=[0, 1, 0.5, 0.25]),
          _dt=c.real("dt", pos=True, hint=(1, 4)), Vp_sed=c.real("Vp_sed", **pos), qs0=c.real("qs0", **pos), U_ero_sand=c.real("U_ero_sand", **pos),
          U_dep_mud=c.real("U_dep_mud", **pos), U_ero_mud=c.real("U_ero_mud", **pos), _lambda=c.real("lam", 0, 1), _beta=c.real("beta", **pos),
          _stepmax=c.int("stepmax", 1, None, hint=(2, 30)), theta_sand=c.real("theta_sand", **pos), theta_mud=c.real("theta_mud", **pos),
          mod_erosion=c.arr("mod_erosion", (L, W), lo=0, pts=[1]), mod_sed_weight=c.arr("mod_sed_weight", (L, W), lo=0, pts=[1]))
    c.call(m.set_constants)
    F = {}
    opt = dict(depth=dict(lo=0, pts=[0]), uw=dict(lo=0), qw=dict(lo=0), qs=dict(lo=0), Vp_dep_mud=dict(lo=0), Vp_dep_sand=dict(lo=0))
    for n in ARGS + ["qs"]:
        if n == "cell_type":
            a = c.arr(n, (L, W), "i", vals=CELLS)
        else:
            a = c.arr(n, (L, W), **opt.get(n, {}))
        c.set(m, **{n: a})
        F[n] = c.snap(a)
    F["mod_erosion"], F["mod_sed_weight"] = c.snap(m.mod_erosion), c.snap(m.mod_sed_weight)
    c.call(m.init_sediment_routers)
    return m, F, lo, hi


def _inv_phase_run(c, e):
    r = e["self"]
    return [c.eq(r.ghost_n, e.k)] if e.has("self") else []


def _phase(c, kind):
    L, W = dims(c)
    m, F, lo, hi = sed_model(c, L, W)
    r = m._sr if kind == "sand" else m._mr
    c.set(r, ghost_n=0)
    want = c.floor(m._Np_sed * (m._f_bedload if kind == "sand" else 1 - m._f_bedload))
    if not c.sym:
        c.assume(want > 0)      # (without compilation an empty start list has no integer type)
    changing = c.choice("parcels", [True, False])
    calls = []

    def starts(inlet, weights, n):
        c.prove("number-of-parcels", c.eq(n, want))
        c.prove("inlet-columns", c.eq(c.shape(inlet)[0], hi - lo))
        c.forall("inlet-columns-all", (hi - lo,), lambda k: c.eq(c.at(inlet, k), lo + k))
        c.forall("inlet-weights-uniform", (hi - lo,), lambda k: c.eq(c.at(weights, k), 1))
        calls.append(1)
        return c.arr("starts", (n,), "i", lo=lo, hi=hi - 1)
    if c.sym:
        pad_contract(c)
        c.contract("get_start_indices", starts)

    def route(self, px, py):
        c.prove("starts-in-inlet", c.And(c.eq(px, 0), lo <= py, py < hi))
        c.prove("full-volume", c.eq(self.Vp_res, m.Vp_sed))
        c.prove("router-type", self is r)
        for a, b in list(SET_BY.items()) + list(OWN[kind].items()):
            c.prove("parameter-" + a, c.eq(getattr(self, a), getattr(m, b)))
        self.ghost_n = self.ghost_n + 1
        for n in (WRITTEN[kind] if changing else ()):     # whatever the parcel does to the fields
            c.set(self, **{n: c.arr("new_" + n, (L, W))})
    c.stub("_route_one_parcel", route)
    c.call(m.route_all_sand_parcels if kind == "sand" else m.route_all_mud_parcels)
    c.prove("all-parcels-routed", c.eq(r.ghost_n, want))

    def same(i, j):
        out = {n: c.eq(c.at(getattr(m, n), i, j), F[n](i, j)) for n in ARGS if not (changing and n in WRITTEN[kind])}
        if kind == "mud":
            out["qs"] = c.eq(c.at(m.qs, i, j), F["qs"](i, j))
        for n in ARGS + (["qs"] if kind == "sand" else []):
            out["router-" + n] = c.eq(c.at(getattr(m, n), i, j), c.at(getattr(r, n), i, j))
        out["mod_erosion"] = c.eq(c.at(r.mod_erosion, i, j), F["mod_erosion"](i, j))
        return out
    c.forall("fields", (L, W), same)
    c.forall("padded-modifier", (L + 2, W + 2), lambda i, j: c.eq(
        c.at(r.pad_mod_sed_weight, i, j), F["mod_sed_weight"](clampi(c, i - 1, L), clampi(c, j - 1, W))))


PH = {"run": [Loop(1, "parcels", _inv_phase_run)]}


@goal("C04", "sand_phase", n=100, budget=120, loops=PH)
def sand_phase(c):
    _phase(c, "sand")


@goal("C04", "mud_phase", n=100, budget=120, loops=PH)
def mud_phase(c):
    _phase(c, "mud")


@goal("C04", "init_sediment_iteration", n=100)
def init_sed(c):
    L, W = dims(c)
    m, F, lo, hi = sed_model(c, L, W)
    c.set(m, pad_depth=None)
    c.call(m.init_sediment_iteration)
    c.forall("reset", (L, W), lambda i, j: {
        "bookings-start-at-zero": c.And(c.eq(c.at(m.Vp_dep_sand, i, j), 0), c.eq(c.at(m.Vp_dep_mud, i, j), 0), c.eq(c.at(m.qs, i, j), 0)),
        "frame": c.And(*[c.eq(c.at(getattr(m, n), i, j), F[n](i, j)) for n in ("eta", "stage", "depth", "uw", "ux", "uy", "qw", "qx", "qy")])})


# ---------------------------------------------------------------------- bounded end-to-end runs of both phases
def domain_model(c, **kw):
    """small real model (domain of setup) with arbitrary water, bed and discharge fields"""
    m = c.base()
    L, W = m.L, m.W
    dep = c.arr("depth", (L, W), lo=0, pts=[0, 0.0625, 1])
    stage = c.arr("stage", (L, W), hint=(-1, 2), pts=[0])
    eta = stage - dep
    qx, qy = c.arr("qx", (L, W), hint=(-2, 4), pts=[0, 1]), c.arr("qy", (L, W), hint=(-2, 2), pts=[0])
    qw = (qx ** 2 + qy ** 2) ** 0.5
    uw = c.arr("uw", (L, W), lo=0, hint=(0, 3), pts=[0, 1])
    c.set(m, depth=dep, stage=stage, eta=eta, qx=qx, qy=qy, qw=qw, uw=uw, ux=uw * 0.5, uy=uw * 0.5,
          mod_sed_weight=c.arr("mod_sed", (L, W), lo=0.25, hint=(0.25, 2), pts=[1]),
          mod_erosion=c.arr("mod_ero", (L, W), lo=0, hint=(0, 2), pts=[1]),
          _Np_sed=c.int("Np_sed", 4, None, hint=(4, 12)), _stepmax=c.int("stepmax", 1, None, hint=(1, 80)))
    c.call(m.init_sediment_routers)
    return m


def _sediment_run(c, pid):
    m = domain_model(c)
    L, W, dx2 = m.L, m.W, float(m._dx) ** 2
    seen = {"sand": [], "mud": []}
    cur = []
    import numpy as np
    flux = [np.zeros((L, W))]
    kind = lambda r: "sand" if r is m._sr else "mud"
    inl = set(int(x) for x in m.inlet)

    def begin(a, k):
        r, px, py = a[0], int(a[1]), int(a[2])
        if pid == "C03":
            c.prove("starts-in-inlet", px == 0 and py in inl)
        elif pid == "C04":
            c.prove("same-volume", c.eq(r.Vp_res, m.Vp_sed, 1e-4))
        elif kind(r) == "sand":
            want = flux[0].copy()
            want[px, py] += float(r.Vp_sed) / 2 / float(r._dt) / float(r._dx)
            c.prove("flux-of-released-parcel", np.allclose(want, r.qs, rtol=1e-4, atol=1e-9))
            flux[0] = r.qs.astype(float).copy()
        cur[:] = [(px, py)]
        cur.append((float(r.Vp_res), float(r.eta.astype(float).sum())))

    def enter(a, k):
        r, px, py = a[0], int(a[1]), int(a[2])
        if pid == "C05" and cur and kind(r) == "sand":
            half = float(r.Vp_res) / 2 / float(r._dt) / float(r._dx)
            want = flux[0].copy()
            want[cur[0]] += half
            want[px, py] += half
            c.prove("flux-of-step-added-to-cells-left-and-entered", np.allclose(want, r.qs, rtol=1e-4, atol=1e-9))
            flux[0] = r.qs.astype(float).copy()

    def step(res, a, k):
        r, px, py = a[0], int(a[1]), int(a[2])
        if pid == "C03" and cur:
            p = cur[0]
            c.prove("adjacent", (abs(px - p[0]), abs(py - p[1])) in ((0, 1), (1, 0), (1, 1)))
            c.prove("on-grid", 0 <= px < L and 0 <= py < W)
            c.prove("never-on-land", m.cell_type[px, py] != -2)
            c.prove("not-past-edge", len(cur) == 2 or m.cell_type[p] != -1)
        if cur:
            cur[0] = (px, py)
            cur.append(1)

    def end(res, a, k):
        r = a[0]
        n = len(cur) - 2
        if pid == "C03":
            c.prove("ends-at-edge-or-limit", m.cell_type[cur[0]] == -1 or n == m.stepmax)
            c.prove("limit", n <= m.stepmax)
        elif pid == "C04":
            v0, e0 = cur[1]
            c.prove("conserved", abs((r.eta.astype(float).sum() - e0) * dx2 + float(r.Vp_res) - v0) <= 1e-3 * (abs(v0) + 1) + 1e-6 * dx2 * L * W)
        seen[kind(r)].append(n)

    c.before("_route_one_parcel", begin)
    c.after("_deposit_or_erode", step)
    c.before("_deposit_or_erode", enter)
    fin = c.after
    # `after` on an already observed function: wrap again
    for cls in (type(m._sr), type(m._mr)):
        old = cls.__dict__.get("_route_one_parcel")
        if old is None:
            raise Skip("_route_one_parcel")

        def w(*a, old=old, **k):
            res = old(*a, **k)
            end(res, a, k)
            return res
        c.patch(cls, "_route_one_parcel", w)
    c.call(m.init_sediment_iteration)
    c.call(m.route_all_sand_parcels)
    if pid == "C05":
        c.prove("flux-of-steps-only", np.allclose(flux[0], m.qs, rtol=1e-4, atol=1e-9))
    c.call(m.route_all_mud_parcels)
    c.prove("number-of-parcels", len(seen["sand"]) == int(m._Np_sed * m._f_bedload) and
            len(seen["mud"]) == int(m._Np_sed * (1 - m._f_bedload)))


@goal("C04", "parcels_end_to_end", sym=False, n=40, bounded="whole sediment phases on a 12 x 20 domain, up to 12 parcels")
def parcels4(c):
    _sediment_run(c, "C04")


@goal("C03", "sediment_paths", sym=False, n=40, bounded="whole sediment phases on a 12 x 20 domain, up to 12 parcels")
def parcels3(c):
    _sediment_run(c, "C03")
