"""C24 reproducibility; C14 a resumed run continues as the uninterrupted one."""
import os

from .common import *
from dv import spec


# ---------------------------------------------------------------- sources of randomness


@goal("C24", "seed_given_or_drawn_is_the_seed_used", n=40)
def seed_used(c):
    m = c.base()
    given = c.choice("given", [True, False])
    s = c.int("seed", 0, 2 ** 32 - 1, hint=(0, 50), pts=[0, 2 ** 32 - 1]) if given else None
    c.set(m, _seed=s)
    log = []
    if c.sym:
        c.watch_rng(lambda kind, jit, v: log.append((kind, jit, v)))
    else:
        c.stub("set_random_seed", lambda v: log.append(("seed", True, v)))
    c.call(m.determine_random_seed)
    seeds = [x for x in log if x[0] == "seed"]
    c.prove("seeded-exactly-once", len(seeds) == 1)
    c.prove("seeds-the-generator-that-draws", seeds[0][1])
    c.prove("recorded-seed-is-the-seed-used", c.eq(seeds[0][2], m.seed))
    if given:
        c.prove("given-seed-kept", c.eq(m.seed, s))
    else:
        c.prove("drawn-seed-valid", c.And(0 <= m.seed, m.seed < 2 ** 32))


@goal("C24", "set_random_seed_seeds_the_compiled_generator", conc=False)
def set_seed(c):
    s = c.int("seed", 0, 2 ** 32 - 1)
    log = []
    c.watch_rng(lambda kind, jit, v: log.append((kind, jit, v)))
    c.call(c.fn("shared_tools", "set_random_seed"), s)
    c.prove("seeded-once-with-the-seed", len(log) == 1 and log[0][0] == "seed" and log[0][1])
    c.prove("value", c.eq(log[0][2], s))


@goal("C24", "generator_state_round_trip", n=20)
def state_rt(c):
    from .output import new_rng, same_rng
    c.scratch()
    a = new_rng(c, "a")
    c.rng_state(a)
    g = c.call(c.fn("shared_tools", "get_random_state"))
    c.rng_state(new_rng(c, "b"))
    c.call(c.fn("shared_tools", "set_random_state"), g)
    c.prove("state-restored", same_rng(c, c.rng_state(), a))


def watched(key, draws):
    """run the code of another contract, observing only its random draws"""
    g = spec.GOALS[key]

    @goal("C24", "draws_in_%s_%s" % (g.pid.lower(), g.name), conc=False, loops=g.loops, budget=g.budget)
    def w(c):
        n = [0]

        def hook(kind, jit, s):
            n[0] += 1
            c.mute = False
            c.prove("draws-only-from-the-seeded-generator", kind in ("uniform", "randint") and jit)
            c.prove("no-draw-where-none-is-documented", draws)
            c.mute = True
        c.watch_rng(hook)
        c.mute = True
        try:
            g.fn(c)
        finally:
            c.mute = False
        c.prove("observed", True)
    return w


def setup_watches():
    from . import diffusion, discharge, flooding, hooks, output, sediment, surface, timestep, walks, water_state  # noqa
    for k in ("C03.random_pick", "C03.start_indices", "C03.choose_directions", "C03.sand_walk", "C03.mud_walk",
              "C04.sand_phase", "C04.mud_phase"):
        if k in spec.GOALS:
            watched(k, True)
    for k in NODRAW:
        if k in spec.GOALS:
            watched(k, False)


NODRAW = ("C03.new_positions", "C03.boundary", "C04.init_sediment_iteration", "C03.walk_matrix_grows", "C03.inlet_weights",
          "C25.timestep", "C25.water_iterations", "C25.sediment", "C25.finalize_timestep")
setup_watches()


@goal("C24", "a_timestep_leaves_the_generator_to_its_phases", n=60)
def update_rng(c):
    """advancing the clock, saving and checkpointing neither reseed the generator nor draw from it"""
    from .hooks import spy
    L, W, m = world(c)
    c.set(m, _time_iter=c.int("steps_taken", 0, None, hint=(0, 30), pts=[9, 49, 99, 499, 999]))
    steps = ["solve_water_and_sediment_timestep", "apply_subsidence", "finalize_timestep", "output_data", "output_checkpoint"]
    spy(c, [], steps)
    c.stub("log_model_time", lambda self: None)
    log = []
    if c.sym:
        c.watch_rng(lambda kind, jit, v: log.append(kind))
    else:
        import random
        import numpy as np
        c.stub("set_random_seed", lambda v: log.append("seed"))
        before = np.random.get_state()[1].copy(), random.getstate()
    c.call(m.update)
    if not c.sym:
        if random.getstate() != before[1] or not np.array_equal(np.random.get_state()[1], before[0]):
            log.append("draw")
    c.prove("not-reseeded", "seed" not in log)
    c.prove("no-draw", [x for x in log if x != "seed"] == [])


# ---------------------------------------------------------------- end to end, compiled


CONFIGS = [dict(), dict(toggle_subsidence=True, start_subsidence=0, subsidence_rate=1e-7), dict(SLR=1e-6, f_bedload=0.3),
           dict(Np_water=17, Np_sed=23, itermax=2, stepmax=31), dict(hb=3.0, sand_frac_bc=0.5, alpha=0.3)]
STATE = ("eta", "depth", "stage", "uw", "ux", "uy", "qw", "qx", "qy", "qs", "sand_frac", "active_layer", "Vp_dep_sand", "Vp_dep_mud",
         "cell_type", "inlet")


def make(c, d, **kw):
    from pyDeltaRCM.model import DeltaModel
    a = dict(out_dir=d, Length=600., Width=1000., dx=50., L0_meters=100., N0_meters=200., Np_water=12, Np_sed=12, itermax=1,
             f_bedload=0.5)
    a.update(kw)
    return DeltaModel(**a)


def state(m):
    import numpy as np
    s = {k: np.array(getattr(m, k)) for k in STATE}
    s.update(time=m._time, H_SL=m._H_SL, time_iter=m._time_iter, save_iter=m._save_iter)
    return s


def equal(a, b, ignore=()):
    import numpy as np
    for k in a:
        if k not in ignore and not np.array_equal(a[k], b[k], equal_nan=True):
            return k
    return None


def finish(m):
    m.finalize()
    for h in list(m.logger.handlers):
        h.close()
        m.logger.removeHandler(h)


def disturb(c, n):
    """randomness used outside of the model"""
    import random
    import numpy as np
    np.random.seed(n)
    random.seed(n)
    np.random.uniform(size=n % 7)


@goal("C24", "same_seed_same_run", sym=False, jit=True, n=4, conc_budget=100,
      bounded="12 x 20 cells, up to 23 parcels, 3 timesteps, 5 configurations")
def same_seed(c):
    cfg = c.choice("config", CONFIGS)
    seed = c.choice("seed", [0, 1, 2 ** 32 - 2, None])
    n = 3
    runs = []
    for r in range(2):
        disturb(c, 11 + 13 * r)
        m = make(c, os.path.join(c.scratch(), "o"), seed=seed, **cfg)
        if seed is None:
            c.prove("drawn-seed-recorded", m.seed is not None)
            seed = int(m.seed)
        c.prove("recorded-seed", m.seed == seed)
        st = [state(m)]
        for k in range(n):
            disturb(c, 5 + k + 7 * r)
            m.update()
            st.append(state(m))
        finish(m)
        runs.append(st)
    for k, (a, b) in enumerate(zip(*runs)):
        d = equal(a, b)
        if d:
            c.fail("identical-states", "%s differs after %d steps" % (d, k))
    c.prove("identical-states", True)


@goal("C14", "resumed_run_continues_as_uninterrupted", sym=False, jit=True, n=4, conc_budget=100,
      bounded="12 x 20 cells, up to 23 parcels, 2 + 2 timesteps, 5 configurations")
def resumed(c):
    cfg = dict(c.choice("config", CONFIGS), save_eta_grids=True, save_discharge_components=True, save_dt=1, checkpoint_dt=1,
               save_checkpoint=True)
    d1, d2 = os.path.join(c.scratch(), "o"), os.path.join(c.scratch(), "o")
    n1, n2 = c.choice("before", [1, 2]), 2
    m = make(c, d1, seed=c.int("seed", 0, 99), **cfg)
    for k in range(n1):
        m.update()
    import shutil
    saved = state(m)
    m.output_netcdf.sync()
    shutil.copytree(d1, d2)
    st = []
    for k in range(n2):
        m.update()
        st.append(state(m))
    finish(m)
    disturb(c, 77)
    r = make(c, d2, seed=c.int("other_seed", 100, 199), resume_checkpoint=True, **cfg)
    LATE = ("qs", "Vp_dep_sand", "Vp_dep_mud")  # recomputed by every timestep
    x = equal(saved, state(r), LATE)
    if x:
        c.fail("state-restored", x)
    for k in range(n2):
        r.update()
        x = equal(st[k], state(r))
        if x:
            c.fail("continues-as-the-uninterrupted-run", "%s differs %d steps after resuming" % (x, k + 1))
    finish(r)
    c.prove("continues-as-the-uninterrupted-run", True)
    a, b = c.dataset(os.path.join(d1, "pyDeltaRCM_output.nc")), c.dataset(os.path.join(d2, "pyDeltaRCM_output.nc"))
    import numpy as np
    for v in a.variables:
        c.prove("same-output-" + v, a.variables[v].shape == b.variables[v].shape and
                np.array_equal(np.asarray(a.variables[v][:]), np.asarray(b.variables[v][:])))


@goal("C16", "starting_a_model_on_existing_output", sym=False, jit=True, n=10, conc_budget=60,
      bounded="12 x 20 cells; every combination of existing file, overwrite, resume and deferred output")
def start_existing(c):
    d = os.path.join(c.scratch(), "o")
    m = make(c, d, seed=1, save_eta_grids=True, save_checkpoint=True, save_dt=1)
    m.update()
    finish(m)
    p = os.path.join(d, "pyDeltaRCM_output.nc")
    with open(p, "rb") as f:
        old = f.read()
    mode = c.choice("mode", ["plain", "clobber", "resume", "defer"])
    kw = dict(seed=2, save_eta_grids=True, save_checkpoint=True, save_dt=1)
    if mode == "clobber":
        kw["clobber_netcdf"] = True
    if mode == "resume":
        kw["resume_checkpoint"] = True
    if mode == "defer":
        kw["defer_output"] = True
    try:
        r, e = make(c, d, **kw), None
    except FileExistsError as x:
        r, e = None, x
    if mode == "plain":
        c.prove("existing-output-refused", e is not None)
    else:
        c.prove("accepted", e is None)
    if mode in ("plain", "defer"):
        with open(p, "rb") as f:
            c.prove("existing-output-untouched", f.read() == old)
    if r is not None:
        if mode == "resume":
            c.prove("records-kept", r.output_netcdf.variables["time"].shape[0] == 2)
        finish(r)
