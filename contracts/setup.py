"""C21 derived boundary conditions, C22 initial geometry."""
from .common import *

GRIDS = ["eta", "depth", "stage", "discharge", "velocity", "sedflux", "sandfrac"]


def params(c, big=True):
    """a model with configured parameters inside their documented ranges"""
    m = c.base()
    dx = c.real("dx", pos=True, hint=(1, 8), pts=[2, 5])
    Length, Width = c.real("Length", pos=True, hint=(20, 120)), c.real("Width", pos=True, hint=(20, 160))
    c.assume(dx <= Length, dx <= Width)
    f = lambda n, **k: c.real(n, **k)
    p = dict(_dx=dx, _Length=Length, _Width=Width,
             _L0_meters=f("L0_meters", lo=0, hint=(0, 60), pts=[0, 10, 25]), _N0_meters=f("N0_meters", pos=True, hint=(1, 60), pts=[10, 25]),
             _S0=f("S0", lo=0, hint=(0, 0.1), pts=[0]), _itermax=c.int("itermax", 1, None, hint=(1, 4)),
             _Np_water=c.int("Np_water", 1, None, hint=(1, 50)), _Np_sed=c.int("Np_sed", 1, None, hint=(1, 50)),
             _u0=f("u0", pos=True, hint=(0.2, 4)), _h0=f("h0", pos=True, hint=(0.3, 8), pts=[1]),
             _hb=c.choice("hb", [None, c.real("hbv", pos=True, hint=(0.3, 9))]), _f_bedload=f("f_bedload", lo=0, hi=1, pts=[0, 1]),
             _C0_percent=f("C0_percent", pos=True, hint=(0.01, 2)), _theta_water=f("theta_water", pos=True, hint=(0.5, 2)),
             _coeff_theta_sand=f("cts", pos=True, hint=(0.5, 3)), _coeff_theta_mud=f("ctm", pos=True, hint=(0.5, 3)),
             _coeff_U_dep_mud=f("cud", pos=True, hint=(0.1, 1)), _coeff_U_ero_mud=f("cum", pos=True, hint=(1, 2)),
             _coeff_U_ero_sand=f("cus", pos=True, hint=(1, 2)), _sed_lag=f("sed_lag", lo=0, hi=1),
             _alpha=f("alpha", lo=0, hint=(0, 0.3)), _beta=f("beta", pos=True, hint=(1, 4)),
             _stepmax=c.choice("stepmax", [None, c.int("stepmaxv", 1, None, hint=(1, 80))]),
             _sand_frac_bc=f("sand_frac_bc", lo=0, hi=1), _toggle_subsidence=False, _save_metadata=False,
             _save_discharge_components=False, _save_velocity_components=False)
    for g in GRIDS:
        p["_save_%s_grids" % g] = False
    c.set(m, **p)
    return m, p


def derived(c, m, p, tag):
    """every derived quantity equals its defining formula of the parameters p"""
    eq = c.eq
    dx, u0, h0, L, W = p["_dx"], p["_u0"], p["_h0"], m.L, m.W
    C0 = p["_C0_percent"] / 100
    c.prove(tag + "grid-size", c.And(eq(L, c.rint(p["_Length"] / dx)), eq(W, c.rint(p["_Width"] / dx))))
    L0 = c.max(1, c.min(c.rint(p["_L0_meters"] / dx), c.idiv(L, 4)))
    N0 = c.max(3, c.min(c.rint(p["_N0_meters"] / dx), c.idiv(W, 4)))
    c.prove(tag + "inlet-length", eq(m.L0, L0))
    c.prove(tag + "inlet-width", eq(m.N0, N0))
    n = m.N0
    c.prove(tag + "speed-cap", eq(m.u_max, 2 * u0))
    c.prove(tag + "concentration", eq(m.C0, C0))
    c.prove(tag + "dry-depth", eq(m.dry_depth, c.min(0.1, 0.1 * h0)))
    c.prove(tag + "reference-volume", eq(m.V0, h0 * dx * dx))
    c.prove(tag + "unit-discharge", eq(m.qw0, u0 * h0))
    c.prove(tag + "total-discharge", eq(m.Qw0, u0 * h0 * n * dx))
    c.prove(tag + "gamma", eq(m.gamma * u0 * u0, 9.81 * p["_S0"] * dx))
    c.prove(tag + "parcel-discharge", eq(m.Qp_water * p["_Np_water"], u0 * h0 * n * dx))
    c.prove(tag + "unit-sediment-flux", eq(m.qs0, u0 * h0 * C0))
    c.prove(tag + "total-sediment-flux", eq(m.Qs0, u0 * h0 * n * dx * C0))
    c.prove(tag + "sediment-volume", eq(m.dVs, 0.1 * n * n * (h0 * dx * dx)))
    c.prove(tag + "parcel-volume", eq(m.Vp_sed * p["_Np_sed"], 0.1 * n * n * (h0 * dx * dx)))
    c.prove(tag + "timestep", eq(m._dt * m.Qs0, m.dVs))
    c.prove(tag + "relaxation-weight", eq(m.omega_flow_iter * p["_itermax"], 2))
    ratio = 0.1 * n * n
    c.prove(tag + "diffusion-sweeps", c.le(c.abs(m.N_crossdiff - ratio), 0.5))
    c.prove(tag + "diffusion-multiplier", eq(m.diffusion_multiplier * (dx * dx) * m.N_crossdiff, m._dt * p["_alpha"] * 0.5))
    c.prove(tag + "sediment-lag", eq(m._lambda, p["_sed_lag"]))
    steps = 2 * (L + W) if p["_stepmax"] is None else p["_stepmax"]
    c.prove(tag + "step-limit", c.And(eq(m.stepmax, steps), eq(m.size_indices, c.idiv(steps, 2))))


def thresholds(c, m, p, tag):
    c.prove(tag + "velocity-thresholds", c.And(c.eq(m.U_dep_mud, p["_coeff_U_dep_mud"] * p["_u0"]),
                                         c.eq(m.U_ero_mud, p["_coeff_U_ero_mud"] * p["_u0"]),
                                         c.eq(m.U_ero_sand, p["_coeff_U_ero_sand"] * p["_u0"])))


@goal("C21", "setup", n=300)
def setup(c):
    m, p = params(c)
    c.call(m.create_other_variables)
    derived(c, m, p, "")
    thresholds(c, m, p, "")
    c.prove("theta", c.And(c.eq(m.theta_sand, p["_coeff_theta_sand"] * p["_theta_water"]),
                           c.eq(m.theta_mud, p["_coeff_theta_mud"] * p["_theta_water"])))
    c.prove("initial-parcel-counts", c.And(c.eq(m.init_Np_water, p["_Np_water"]), c.eq(m.init_Np_sed, p["_Np_sed"])))
    W = m.W
    ctr = c.floor(W / 2) - 1
    c.prove("centre-column", c.eq(m.CTR, c.ite(ctr <= 1, c.floor(W / 2), ctr)))
    for k in p:
        if k != "_stepmax" and not k.startswith("_save") and p[k] is not None and not isinstance(p[k], bool):
            c.prove("parameter-kept " + k, c.eq(getattr(m, k), p[k]))
    c.prove("not-finalized", m._is_finalized is False or m._is_finalized == False)


def routers(c, m, p, tag):
    for kind, r in (("mud", m._mr), ("sand", m._sr)):
        want = dict(_dt=m._dt, _dx=p["_dx"], Vp_sed=m.Vp_sed, u_max=m.u_max, dry_depth=m.dry_depth, _beta=p["_beta"],
                    stepmax=m.stepmax)
        if kind == "mud":
            want.update(U_dep_mud=m.U_dep_mud, U_ero_mud=m.U_ero_mud, _lambda=p["_sed_lag"], theta_sed=m.theta_mud)
        else:
            want.update(U_ero_sand=m.U_ero_sand, qs0=m.qs0, _u0=p["_u0"], _f_bedload=p["_f_bedload"], theta_sed=m.theta_sand)
        for k, v in want.items():
            c.prove("%s%s-router-uses-current %s" % (tag, kind, k), c.eq(getattr(r, k), v))
        for k in ("ivec_flat", "jvec_flat", "iwalk_flat", "jwalk_flat", "distances_flat"):
            for q in range(9):
                c.prove("%s%s-router-uses-current %s" % (tag, kind, k), c.eq(c.at(getattr(r, k), q), c.at(getattr(m, k), q)))
        c.prove("%s%s-router-uses-current mod_erosion" % (tag, kind), c.same_array(r.mod_erosion, m.mod_erosion))


def with_routers(c):
    m, p = params(c)
    c.call(m.create_other_variables)
    p["_stepmax"] = m.stepmax
    c.set(m, mod_erosion=c.ones((m.L, m.W)))
    return m, p


@goal("C21", "routers_at_setup", n=200)
def routers_setup(c):
    m, p = with_routers(c)
    c.call(m.init_sediment_routers)
    routers(c, m, p, "")


def _setter(name, key, scale=1, rebuild=True, check=None):
    def g(c):
        m, p = with_routers(c)
        c.call(m.init_sediment_routers)
        U = dict(U_dep_mud=m.U_dep_mud, U_ero_mud=m.U_ero_mud, U_ero_sand=m.U_ero_sand)
        new = c.real("new", pos=True, hint=(0.2, 4)) if name != "channel_width" else c.real("new", pos=True, hint=(2, 60))
        if name == "bedload_fraction":
            c.assume(new <= 1)
        c.call(setattr, m, name, new)
        p[key] = new * scale
        c.prove("parameter-set", c.eq(getattr(m, key), p[key]))
        derived(c, m, p, "")
        for k, v in U.items():
            c.prove("thresholds-kept " + k, c.eq(getattr(m, k), v))
        routers(c, m, p, "")
        for k in p:
            if p[k] is not None and not isinstance(p[k], bool):
                c.prove("parameter-kept " + k, c.eq(getattr(m, k), p[k]))
        # the getter reports the value in effect
        got = c.call(getattr, m, name)
        want = m.N0 * p["_dx"] if name == "channel_width" else p[key]
        c.prove("getter", c.eq(got, want))
    g.__name__ = name
    return g


for _n, _k, _s in (("channel_flow_velocity", "_u0", 1), ("channel_width", "_N0_meters", 1), ("channel_flow_depth", "_h0", 1),
                   ("influx_sediment_concentration", "_C0_percent", 100), ("bedload_fraction", "_f_bedload", 1)):
    goal("C21", "set_" + _n, n=150)(_setter(_n, _k, _s))


@goal("C21", "set_time_step", n=150)
def set_time_step(c):
    m, p = with_routers(c)
    c.call(m.init_sediment_routers)
    new = c.real("new", pos=True, hint=(0.2, 4000))
    c.call(setattr, m, "time_step", new)
    c.prove("timestep", c.And(c.eq(m._dt, new), c.eq(c.call(getattr, m, "time_step"), new), c.eq(c.call(getattr, m, "dt"), new)))
    c.prove("diffusion-multiplier", c.eq(m.diffusion_multiplier * (p["_dx"] * p["_dx"]) * m.N_crossdiff, new * p["_alpha"] * 0.5))
    routers(c, m, p, "")


CHANGES = ["setup", "channel_flow_velocity", "channel_width", "channel_flow_depth", "influx_sediment_concentration",
           "bedload_fraction", "time_step"]


def changed(c, prepare=None):
    """a model set up from any parameters and, maybe, changed afterwards in one of the supported ways"""
    m, p = with_routers(c)
    if prepare:
        prepare(m)
    c.call(m.init_sediment_routers)
    what = c.choice("change", CHANGES)
    if what != "setup":
        new = c.real("new", pos=True, hint=(2, 60) if what == "channel_width" else (0.2, 4) if what != "time_step" else (0.2, 4000))
        if what == "bedload_fraction":
            c.assume(new <= 1)
        c.call(setattr, m, what, new)
    return m, p


@goal("C06", "cap_in_effect", n=150)
def cap_in_effect(c):
    """the cap of the speed is twice the reference velocity now in effect"""
    m, p = changed(c)
    c.prove("cap-is-twice-the-reference-velocity", c.eq(m.u_max, 2 * m._u0))


@goal("C08", "weights_in_effect", n=150, budget=200)
def weights_in_effect(c):
    """the relaxation weight of later iterations and the parcel discharge are those of the parameters"""
    m, p = changed(c)
    c.prove("relaxation-weight-of-later-iterations", c.eq(m.omega_flow_iter * p["_itermax"], 2))
    c.prove("parcel-discharge", c.eq(m.Qp_water * p["_Np_water"], m._u0 * m._h0 * m.N0 * p["_dx"]))
    c.prove("prescribed-inflow", c.eq(m.qw0, m._u0 * m._h0))


@goal("C11", "multiplier_in_effect", n=150, budget=200)
def multiplier_in_effect(c):
    """the diffusion multiplier is that of the timestep and number of sweeps now in effect"""
    m, p = changed(c)
    c.prove("diffusion-multiplier", c.eq(m.diffusion_multiplier * (p["_dx"] * p["_dx"]) * m.N_crossdiff, m._dt * p["_alpha"] * 0.5))
    # the number of sweeps: bed volume added per timestep over the reference volume
    c.prove("number-of-sweeps", c.le(c.abs(m.N_crossdiff - 0.1 * m.N0 * m.N0), 0.5))


@goal("C20", "rate_in_effect", n=200, budget=200)
def rate_in_effect(c):
    """subsidence of a timestep: the configured rate times the timestep now in effect"""
    rate = c.real("rate", lo=0, hint=(0, 2))

    def subside(m):
        c.set(m, _toggle_subsidence=True, _subsidence_rate=rate, _start_subsidence=c.real("start", lo=0, hint=(0, 5)))
        c.call(m.init_subsidence)
    m, p = changed(c, subside)
    L, W = m.L, m.W
    eta = c.arr("eta", (L, W))
    e0 = c.snap(eta)
    c.set(m, eta=eta, _time=c.real("time", lo=0, hint=(0, 9), pts=[0, 4]))
    c.call(m.apply_subsidence)
    c.forall("bed", (L, W), lambda i, j: c.eq(c.at(m.eta, i, j), e0(i, j) - c.ite(
        c.And(m._time >= m._start_subsidence, i >= m.L0), rate * m._dt, 0)))


@goal("C22", "create_domain", n=300, budget=200)
def create_domain(c):
    L = c.int("L", 2, None, hint=(2, 14))
    W = c.int("W", 3, None, hint=(3, 24))
    m = c.base()
    L0, N0 = c.int("L0", 1, None, hint=(1, 4)), c.int("N0", 3, None, hint=(3, 6))
    c.assume(L0 <= c.max(1, c.idiv(L, 4)), N0 <= c.max(3, c.idiv(W, 4)))
    half = c.idiv(W, 2)
    CTR = c.ite(half - 1 <= 1, half, half - 1)
    dx, h0, u0 = c.real("dx", pos=True, hint=(1, 8)), c.real("h0", pos=True, hint=(0.3, 8)), c.real("u0", pos=True, hint=(0.3, 4))
    S0, bc = c.real("S0", lo=0, hint=(0, 0.1)), c.real("bc", lo=0, hi=1)
    hb = c.choice("hb", [None, "given"])
    hb = None if hb is None else c.real("hbv", pos=True, hint=(0.3, 9))
    NP, SI = c.int("Np_water", 1, None, hint=(1, 9)), c.int("size", 1, None, hint=(1, 30))
    c.set(m, L=L, W=W, L0=L0, N0=N0, CTR=CTR, _dx=dx, _h0=h0, _hb=hb, _u0=u0, _S0=S0, _sand_frac_bc=bc, qw0=u0 * h0,
          _Np_water=NP, size_indices=SI)
    c.call(m.create_domain)
    basin = h0 if hb is None else hb
    lo = CTR - c.rint(N0 / 2) + 1
    hi = lo + N0
    rad = c.min(L - 5, W / 2 - 5)

    def post(i, j):
        inl = i < L0
        ch = c.And(inl, lo <= j, j < hi)
        off = c.sqrt((i - 3) * (i - 3) + (j - CTR) * (j - CTR))
        edge = c.Or(c.eq(i, L - 1), c.eq(j, 0), c.eq(j, W - 1), rad <= off)
        t = c.at(m.cell_type, i, j)
        d, s, e = c.at(m.depth, i, j), c.at(m.stage, i, j), c.at(m.eta, i, j)
        q = c.ite(ch, u0 * h0, c.ite(inl, 0, u0 * h0 / 5))
        dep = c.ite(ch, h0, c.ite(inl, 0, basin))
        return {
            "channel": c.Implies(ch, c.eq(t, 1)),
            "land": c.Implies(c.And(inl, c.Not(ch)), c.eq(t, -2)),
            "edge": c.Implies(c.And(c.Not(inl), edge), c.eq(t, -1)),
            "ocean": c.Implies(c.And(c.Not(inl), c.Not(edge)), c.eq(t, 0)),
            "depth": c.eq(d, dep),
            "stage": c.eq(s, c.max(0, L0 - i - 1) * dx * S0),
            "bed": c.eq(e, s - d),
            "initial-discharge": c.And(c.eq(c.at(m.qx, i, j), q), c.eq(c.at(m.qy, i, j), 0), c.eq(c.at(m.qw, i, j), q)),
            "initial-velocity": c.And(c.eq(c.at(m.ux, i, j) * dep, q), c.eq(c.at(m.uy, i, j), 0), c.eq(c.at(m.uw, i, j) * dep, q),
                                      c.Implies(c.eq(dep, 0), c.And(c.eq(c.at(m.ux, i, j), 0), c.eq(c.at(m.uw, i, j), 0)))),
            "sand-fraction": c.And(c.eq(c.at(m.sand_frac, i, j), bc), c.eq(c.at(m.active_layer, i, j), bc)),
            "neutral-modifiers": c.And(*[c.eq(c.at(getattr(m, k), i, j), 1) for k in ("mod_water_weight", "mod_sed_weight", "mod_erosion")]),
            "empty-fields": c.And(*[c.eq(c.at(getattr(m, k), i, j), 0) for k in
                                    ("qxn", "qyn", "qwn", "qs", "Vp_dep_sand", "Vp_dep_mud", "sfc_visit", "sfc_sum")]),
        }

    for k in ("cell_type", "eta", "stage", "depth", "qx", "qy", "qw", "ux", "uy", "uw", "sand_frac", "active_layer"):
        c.prove("shape", c.And(c.eq(c.shape(getattr(m, k))[0], L), c.eq(c.shape(getattr(m, k))[1], W)))
    c.forall("cell", (L, W), post)
    c.forall("x-coordinates", (L,), lambda i: c.eq(c.at(m.xc, i), i * dx))
    c.forall("y-coordinates", (W,), lambda j: c.eq(c.at(m.yc, j), j * dx))
    c.prove("channel-inside-grid", c.And(0 <= lo, hi <= W))
    # the inlet is exactly the set of channel columns
    n = c.shape(m.inlet)[0]
    c.forall("inlet-columns-only", (n,), lambda k: c.And(lo <= c.at(m.inlet, k), c.at(m.inlet, k) < hi))
    c.contains("every-channel-column-in-inlet", m.inlet, lo, hi, at=lambda j: [(0, j)])
