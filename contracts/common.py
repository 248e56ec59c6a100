"""Pieces shared by the contracts: a model state satisfying the class invariant."""
from dv.spec import goal, Loop, Skip

SQ2 = 2 ** 0.5


def dims(c, lo=3):
    L = c.int("L", lo, None, hint=(lo, lo + 4))
    W = c.int("W", lo, None, hint=(lo, lo + 5))
    return L, W


def grids(c, m, L, W, names, lo=None, hi=None, pts=None):
    for n in names:
        c.set(m, **{n: c.arr(n, (L, W), "f", lo=lo, hi=hi, pts=pts)})


CELLS = (-2, -1, 0, 1)

# neighbour k of a cell: row and column offset, and distance (documented order of
# the nine routing directions, row-major around the cell)
NB = [(-1, -1), (-1, 0), (-1, 1), (0, -1), (0, 0), (0, 1), (1, -1), (1, 0), (1, 1)]


def dist(c, k):
    di, dj = NB[k]
    return c.sqrt(2) if di and dj else 1


def clampi(c, v, n):
    """index of the edge-padded neighbour"""
    return c.ite(v < 0, 0, c.ite(v >= n, n - 1, v))


def model(c, L, W, **kw):
    """model object whose scalars satisfy the class invariant established by setup"""
    m = c.base()
    dx = c.real("dx", pos=True, hint=(1, 8))
    h0 = c.real("h0", pos=True, hint=(0.5, 8))
    u0 = c.real("u0", pos=True, hint=(0.5, 4))
    H_SL = c.real("H_SL", hint=(-2, 2), pts=[0, -1, 1])
    a = dict(L=L, W=W, _dx=dx, dx=dx, _h0=h0, _u0=u0, _H_SL=H_SL, _S0=c.real("S0", lo=0, hint=(0, 0.5)),
             u_max=2 * u0, dry_depth=c.min(0.1, 0.1 * h0), V0=h0 * dx * dx, qw0=u0 * h0,
             _time_iter=c.int("time_iter", 0, None, hint=(0, 2), pts=[0, 1]),
             _theta_water=c.real("theta_water", pos=True, hint=(0.5, 2), pts=[1]),
             _gamma_unused=None)
    a.update(kw)
    a.pop("_gamma_unused")
    c.set(m, **a)
    return m


def pad_contract(c):
    """contract of shared_tools.custom_pad (proved in C23): edge padding by one cell"""
    def f(a):
        L, W = c.shape(a)
        g = c.snap(a)
        return c.mk((L + 2, W + 2), lambda i, j: g(clampi(c, i - 1, L), clampi(c, j - 1, W)), c.dtype(a))
    c.contract("custom_pad", f)


def inlet_range(c, W):
    """the inlet columns: a non-empty range inside the grid"""
    lo = c.int("inlet_lo", 0, None, hint=(0, 2))
    hi = c.int("inlet_hi", 1, None, hint=(1, 4))
    c.assume(lo < hi, hi <= W)
    return lo, hi


FIELDS = ["eta", "stage", "sfc_visit", "sfc_sum", "qx", "qy", "qxn", "qyn", "qwn", "ux", "uy"]
FIELDS0 = ["depth", "qw", "uw", "qs", "Vp_dep_sand", "Vp_dep_mud", "sand_frac", "active_layer", "mod_water_weight",
           "mod_sed_weight", "mod_erosion"]


def world(c, lo=3):
    """a model with arbitrary fields, parameters and clocks, so that no condition on them goes unseen; in a still
    world nothing has happened in the timestep and everything optional is switched off"""
    L, W = dims(c, lo)
    m = model(c, L, W)
    still = c.rarely("still")
    for f in FIELDS:
        c.set(m, **{f: c.arr(f, (L, W), pts=[0])})
    for f in FIELDS0:
        c.set(m, **{f: c.arr(f, (L, W), lo=0, pts=[0])})
    c.set(m, eta0=c.arr("eta0", (L, W), pts=[0]), cell_type=c.arr("cell_type", (L, W), "i", vals=CELLS))
    a, b = inlet_range(c, W)
    t = c.real("time", lo=0, hint=(0, 50), pts=[0])
    sdt = c.int("save_dt", 1, None, hint=(1, 9))
    n = c.int("N0", 1, None, hint=(1, 3))
    c.set(m, ghost_inlet=(a, b), inlet=c.arange(a, b), N0=n, L0=c.int("L0", 1, None, hint=(1, 2)), CTR=c.int("CTR", 0, None, hint=(0, 2)),
          _time=t, _dt=c.real("dt", pos=True), _SLR=c.real("SLR", hint=(-1, 1), pts=[0]), _is_finalized=False,
          _toggle_subsidence=c.bool("toggle_subsidence"), _subsidence_rate=c.real("subsidence_rate", hint=(0, 1), pts=[0]),
          _start_subsidence=c.real("start_subsidence", lo=0, hint=(0, 50), pts=[0]), sigma=c.arr("sigma", (L, W), lo=0, pts=[0]),
          _save_dt=sdt, _checkpoint_dt=c.int("checkpoint_dt", 1, None, hint=(1, 9)), _save_checkpoint=c.bool("save_checkpoint"),
          _save_metadata=c.bool("save_metadata"), _save_any_grids=c.bool("save_any_grids"),
          _save_time_since_data=c.real("since_data", lo=0), _save_time_since_checkpoint=c.real("since_checkpoint", lo=0),
          _save_iter=c.int("save_iter", 0, None, hint=(0, 5)), _resume_checkpoint=False,
          _itermax=c.int("itermax", 0, None, hint=(0, 4), pts=[0, 1]), _Np_water=c.int("Np_water", 1, None, hint=(1, 5)),
          _Np_sed=c.int("Np_sed", 1, None, hint=(1, 5)), _f_bedload=c.real("f_bedload", lo=0, hi=1, pts=[0, 1]),
          _alpha=c.real("alpha", lo=0, pts=[0]), N_crossdiff=c.int("N_crossdiff", 1, None, hint=(1, 3)),
          _Nsmooth=c.int("Nsmooth", 0, None, hint=(0, 3), pts=[0]), _omega_sfc=c.real("omega_sfc", lo=0, hi=1, pts=[0, 1]),
          _omega_flow=c.real("omega_flow", lo=0, hi=1, pts=[0, 1]), _active_layer_thickness=c.real("actlyr", pos=True),
          _sand_frac_bc=c.real("sand_frac_bc", lo=0, hi=1, pts=[0, 1]), _C0_percent=c.real("C0_percent", lo=0, hint=(0, 1), pts=[0]),
          _lambda=c.real("lambda", pos=True), _seed=c.int("seed", 0, None, hint=(0, 9)), _hb=m._h0)
    if still:
        for f in ("Vp_dep_sand", "Vp_dep_mud", "qs", "sigma", "sfc_visit"):
            c.set(m, **{f: c.zeros((L, W))})
        st = m.stage.clip(m._H_SL)
        c.set(m, stage=st, depth=0 * st + m._h0, eta=st - m._h0, eta0=st - m._h0, _SLR=0.0, _toggle_subsidence=False, _save_checkpoint=False, _save_metadata=False,
              _save_any_grids=False)
    return L, W, m
