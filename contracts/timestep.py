"""C07 end of timestep, C12 sand fraction, C13 clock, C20 sea level and subsidence."""
from .common import *


@goal("C07", "finalize_timestep", n=300)
def finalize_timestep(c):
    L, W, m = world(c)
    lo, hi = m.ghost_inlet
    eta, stage = m.eta, m.stage
    H, SLR, dt = m._H_SL, m._SLR, m._dt
    e0 = c.snap(eta)
    mid = {}

    def flood(self):
        mid["s"] = c.snap(self.stage)
    order = []
    c.stub("flooding_correction", flood)
    c.stub("compute_sand_frac", lambda self: order.append("sand"))
    c.call(m.finalize_timestep)
    c.prove("sand-fraction-updated-once", order == ["sand"])
    if "s" not in mid:
        c.fail("flooding-correction-applied")
    s1 = mid["s"]

    def post(i, j):
        s, d, e = c.at(m.stage, i, j), c.at(m.depth, i, j), c.at(m.eta, i, j)
        inl = c.And(c.eq(i, 0), lo <= j, j < hi)
        return {
            "stage-at-least-sea-level": c.eq(s, c.max(s1(i, j), H)),
            "depth-is-stage-minus-bed": c.eq(d, c.max(s - e, 0)),
            "bed-unchanged-off-inlet": c.Implies(c.Not(inl), c.eq(e, e0(i, j))),
            "inlet-bed": c.Implies(inl, c.And(c.eq(e, s - m._h0), c.eq(d, m._h0))),
        }

    c.forall("water", (L, W), post)
    c.prove("sea-level", c.eq(m._H_SL, H + SLR * dt))


@goal("C20", "sea_level", n=200)
def sea_level(c):
    L, W, m = world(c)
    H, SLR, dt = m._H_SL, m._SLR, m._dt
    c.stub("flooding_correction", lambda self: None)
    c.stub("compute_sand_frac", lambda self: None)
    n = c.choice("n", [1, 2, 3])
    for k in range(n):
        c.call(m.finalize_timestep)
        c.prove("sea-level", c.eq(m._H_SL, H + (k + 1) * SLR * dt))
        c.prove("rate-and-timestep-unchanged", c.And(c.eq(m._SLR, SLR), c.eq(m._dt, dt)))


@goal("C20", "subsidence", n=300)
def subsidence(c):
    L, W = dims(c)
    m = model(c, L, W)
    L0 = c.int("L0", 1, None, hint=(1, 3))
    c.assume(L0 < L)
    rate, dt = c.real("rate", hint=(0, 1)), c.real("dt", pos=True)
    start, time = c.real("start", lo=0, pts=[0, 1]), c.real("time", lo=0, pts=[0, 1])
    on = c.bool("toggle")
    eta = c.arr("eta", (L, W))
    c.set(m, L0=L0, _dt=dt, _subsidence_rate=rate, _start_subsidence=start, _toggle_subsidence=on, eta=eta)
    c.call(m.init_subsidence)
    e0 = c.snap(m.eta)
    c.set(m, _time=time)
    c.call(m.apply_subsidence)

    def post(i, j):
        act = c.And(on, start <= time, L0 <= i)
        return {"rate": c.Implies(act, c.eq(c.at(m.eta, i, j), e0(i, j) - rate * dt)),
                "nowhere-else": c.Implies(c.Not(act), c.eq(c.at(m.eta, i, j), e0(i, j)))}

    c.forall("bed", (L, W), post)


@goal("C20", "subsidence_custom_region", n=200)
def subsidence_region(c):
    """a user-supplied rate field is applied as it is"""
    L, W = dims(c)
    m = model(c, L, W)
    sigma = c.arr("sigma", (L, W), pts=[0])
    eta = c.arr("eta", (L, W))
    start, time = c.real("start", lo=0, pts=[0, 1]), c.real("time", lo=0, pts=[0, 1])
    on = c.bool("toggle")
    c.set(m, eta=eta, sigma=sigma, _time=time, _start_subsidence=start, _toggle_subsidence=on)
    e0, s0 = c.snap(eta), c.snap(sigma)
    for k in range(2):
        c.call(m.apply_subsidence)

    def post(i, j):
        return {"bed": c.eq(c.at(m.eta, i, j), c.ite(c.And(on, start <= time), e0(i, j) - 2 * s0(i, j), e0(i, j))),
                "field": c.eq(c.at(m.sigma, i, j), s0(i, j))}

    c.forall("bed", (L, W), post)


@goal("C20", "time_step_setter", n=100)
def time_step_setter(c):
    """changing the timestep keeps the subsidence rate"""
    L, W = dims(c)
    m = model(c, L, W)
    dt, dt2 = c.real("dt", pos=True), c.real("dt2", pos=True, hint=(1, 20))
    sigma = c.arr("sigma", (L, W))
    c.set(m, _dt=dt, sigma=sigma, _toggle_subsidence=True, N_crossdiff=c.int("sweeps", 1, None, hint=(1, 9)), _alpha=c.real("alpha", lo=0),
          init_Np_sed=c.int("Np", 1, None, hint=(100, 200)))
    s0 = c.snap(sigma)
    c.stub("init_sediment_routers", lambda self: None)
    c.call(setattr, m, "time_step", dt2)
    c.prove("dt", c.eq(m._dt, dt2))
    c.forall("rate-kept", (L, W), lambda i, j: c.eq(c.at(m.sigma, i, j) * dt, s0(i, j) * dt2))


@goal("C12", "compute_sand_frac", n=400)
def sand_frac(c):
    L, W = dims(c)
    m = model(c, L, W)
    th, bc = c.real("thick", lo=0, hint=(0, 2)), c.real("bc", lo=0, hi=1)
    eta, eta0 = c.arr("eta", (L, W), pts=[0, 1]), c.arr("eta0", (L, W), pts=[0, 1])
    sf, al = c.arr("sand_frac", (L, W), lo=0, hi=1), c.arr("active_layer", (L, W), lo=0, hi=1)
    vs, vm = c.arr("Vs", (L, W), lo=0, pts=[0]), c.arr("Vm", (L, W), lo=0, pts=[0, 5e-7])
    c.set(m, eta=eta, eta0=eta0, sand_frac=sf, active_layer=al, Vp_dep_sand=vs, Vp_dep_mud=vm,
          _active_layer_thickness=th, _sand_frac_bc=bc)
    E, E0, F, A, S, M = [c.snap(x) for x in (eta, eta0, sf, al, vs, vm)]
    c.call(m.compute_sand_frac)

    def post(i, j):
        s, mud = S(i, j), M(i, j)
        dep = c.Or(s > 0, mud > 1e-6)
        f, a = c.at(m.sand_frac, i, j), c.at(m.active_layer, i, j)
        ero = E(i, j) - E0(i, j) < 0
        deep = E(i, j) < E0(i, j) - th
        return {
            "deposit-mixture": c.Implies(dep, lambda: c.And(c.eq(f * (s + mud), s), c.eq(a * (s + mud), s))),
            "active-layer-kept": c.Implies(c.Not(dep), c.eq(a, A(i, j))),
            "eroded-below-active-layer": c.Implies(c.And(c.Not(dep), deep), c.eq(f, bc)),
            "eroded-into-active-layer": c.Implies(c.And(c.Not(dep), ero, c.Not(deep)), c.eq(f, A(i, j))),
            "unchanged": c.Implies(c.And(c.Not(dep), c.Not(ero), c.Not(deep)), c.eq(f, F(i, j))),
            "fraction": c.And(c.le(0, f), c.le(f, 1), c.le(0, a), c.le(a, 1)),
            "frame": c.And(c.eq(c.at(m.eta, i, j), E(i, j)), c.eq(c.at(m.eta0, i, j), E0(i, j)),
                           c.eq(c.at(m.Vp_dep_sand, i, j), s), c.eq(c.at(m.Vp_dep_mud, i, j), mud)),
        }

    c.forall("fractions", (L, W), post)


HOOKED = ["solve_water_and_sediment_timestep", "apply_subsidence", "finalize_timestep"]


CLOCK = ("_time", "_time_iter", "_save_iter", "_save_time_since_data", "_save_time_since_checkpoint")


def clock_model(c):
    L, W, m = world(c)
    a = dict(_time=c.real("time", lo=0, hint=(0, 50)), _dt=c.real("dt", pos=True, hint=(1, 8)),
             _time_iter=c.int("time_iter", 0, None, hint=(0, 5)), _save_iter=c.int("save_iter", 0, None, hint=(0, 5)),
             _save_time_since_data=c.real("since_data", lo=0, hint=(0, 20), pts=[0]),
             _save_time_since_checkpoint=c.real("since_ckp", lo=0, hint=(0, 20), pts=[0]),
             _save_dt=c.real("save_dt", lo=0, hint=(0, 20), pts=[0, 4, 8]),
             _checkpoint_dt=c.real("checkpoint_dt", lo=0, hint=(0, 20), pts=[0, 4, 8]),
             _save_checkpoint=c.bool("save_checkpoint"), _is_finalized=False)
    c.set(m, **a)
    return m


@goal("C13", "update", n=300)
def update(c):
    m = clock_model(c)
    t, dt, n = m._time, m._dt, m._time_iter
    sd, sc, si = m._save_time_since_data, m._save_time_since_checkpoint, m._save_iter
    log = []
    for f in HOOKED:
        c.stub(f, lambda self, f=f: log.append(f))
        c.stub("hook_" + f, lambda self, f=f: log.append("hook_" + f))
    c.stub("hook_after_finalize_timestep", lambda self: log.append("hook_after_finalize_timestep"))
    c.stub("log_model_time", lambda self: None)
    c.stub("hook_output_data", lambda self: log.append("hook_output_data"))
    c.stub("hook_output_checkpoint", lambda self: log.append("hook_output_checkpoint"))

    def saved(self):
        log.append("save")
        c.prove("record-at-new-time", c.And(c.eq(self._time, t + dt), c.eq(self._time_iter, n + 1), c.eq(self._save_iter, si)))

    def ckpt(self):
        log.append("checkpoint")
        # a checkpoint written with the data must not make the resumed run save again
        c.prove("checkpoint-sees-restarted-clock",
                c.And(c.eq(self._time, t + dt), c.eq(self._time_iter, n + 1),
                      c.eq(self._save_time_since_data, c.ite(m._save_dt <= sd + dt, 0, sd + dt)),
                      c.eq(self._save_iter, c.ite(m._save_dt <= sd + dt, si + 1, si))))
    c.stub("save_grids_and_figs", saved)
    c.stub("save_the_checkpoint", ckpt)
    c.call(m.update)
    c.prove("time", c.eq(m._time, t + dt))
    c.prove("step-counter", c.eq(m._time_iter, n + 1))
    c.prove("dt-unchanged", c.eq(m._dt, dt))
    core = [x for x in log if not x.startswith("hook") and x not in ("save", "checkpoint")]
    c.prove("sub-models-in-order", core == HOOKED)
    c.prove("output-after-timestep", [x for x in log if x in HOOKED or x in ("save", "checkpoint")][:3] == HOOKED)
    c.prove("hooks-precede-their-step", all(
        "hook_" + f in log and log.index("hook_" + f) == log.index(f) - 1 for f in HOOKED))
    did = "save" in log
    c.prove("saves-at-most-once", log.count("save") <= 1 and log.count("checkpoint") <= 1)
    due = m._save_dt <= sd + dt
    c.prove("saves-exactly-when-due", c.Iff(did, due))
    c.prove("save-counter", c.eq(m._save_iter, si + 1 if did else si))
    c.prove("accumulated-time", c.eq(m._save_time_since_data, 0 if did else sd + dt))
    cdid = "checkpoint" in log
    c.prove("checkpoint-exactly-when-due", c.Iff(cdid, c.And(m._save_checkpoint, m._checkpoint_dt <= sc + dt)))
    c.prove("checkpoint-accumulated-time", c.eq(m._save_time_since_checkpoint, 0 if cdid else sc + dt))


@goal("C13", "refuses_after_finalize", n=50)
def refuse(c):
    m = clock_model(c)
    log = []
    for f in HOOKED + ["save_grids_and_figs", "save_the_checkpoint"]:
        c.stub(f, lambda self, f=f: log.append(f))
    t, n = m._time, m._time_iter

    class NC:
        def close(self):
            log.append("close")
    c.set(m, output_netcdf=NC())
    c.call(m.finalize)
    c.prove("file-closed-once", log == ["close"])
    r, e = c.attempt(m.update)
    c.prove("update-rejected", isinstance(e, RuntimeError))
    r, e = c.attempt(m.finalize)
    c.prove("second-finalize-rejected", isinstance(e, RuntimeError))
    c.prove("state-untouched", c.And(log == ["close"], c.eq(m._time, t), c.eq(m._time_iter, n)))


@goal("C13", "initial_output", n=40)
def initial_output(c):
    """the clock a new model starts with makes the first output and checkpoint due; a resumed model
    continues the one of the checkpoint, and deferred output is left to the job"""
    cls = c.fn("model", "DeltaModel")
    lg = c.base().logger
    log = []
    resume, defer = c.choice("resume", [False, True]), c.choice("defer", [False, True])
    for f in ["import_files", "init_output_infrastructure", "init_logger", "process_input_to_model", "determine_random_seed",
              "create_other_variables", "create_domain", "init_sediment_routers", "init_subsidence", "init_output_file",
              "log_info", "log_model_time"]:
        c.stub(f, lambda self, *a, f=f, **k: log.append(f))
    sdt, cdt = c.real("save_dt0", lo=0, hint=(0, 1000)), c.real("ckp_dt", lo=0, hint=(0, 1000))
    sc = c.bool("save_checkpoint")

    L, W, w = world(c)

    def setup(self):
        c.set(self, **{k: v for k, v in w.__dict__.items() if k not in CLOCK and k != "logger"})
        c.set(self, _save_dt=sdt, _checkpoint_dt=cdt, _save_checkpoint=sc, _resume_checkpoint=resume)
    c.stub("hook_process_input_to_model", setup)
    c.stub("save_grids_and_figs", lambda self: log.append("save"))
    c.stub("save_the_checkpoint", lambda self: log.append("checkpoint"))
    c.stub("load_checkpoint", lambda self, defer_output=False: log.append(("load", defer_output)))
    c.stub("hook_import_files", lambda self: c.set(self, logger=lg))
    m = c.call(cls, defer_output=defer)
    for f in ["import_files", "process_input_to_model", "determine_random_seed", "create_other_variables", "create_domain",
              "init_sediment_routers", "init_subsidence"]:
        c.prove("set-up-once " + f, log.count(f) == 1)
    c.prove("set-up-before-output", all(x in log[:log.index("init_subsidence") + 1] for x in ("create_domain", "init_sediment_routers"))
            and not any(x in log[:log.index("init_subsidence")] for x in ("save", "checkpoint", ("load", defer), "init_output_file")))
    c.prove("clock-at-zero", c.And(c.eq(m._time, 0), c.eq(m._time_iter, 0)))
    loads = [x for x in log if isinstance(x, tuple)]
    if resume or defer:
        c.prove("resumed-iff-configured", loads == ([("load", defer)] if resume else []))
        c.prove("nothing-saved", log.count("save") == 0 and log.count("checkpoint") == 0 and log.count("init_output_file") == 0)
        if not resume:
            # the job then writes the first output
            c.call(m.output_data)
            c.call(m.output_checkpoint)
            c.prove("first-output-still-due", log.count("save") == 1)
            c.prove("checkpoint-still-due", c.eq(log.count("checkpoint"), c.num(sc)))
        return
    c.prove("not-resumed", loads == [])
    c.prove("one-record", log.count("save") == 1)
    c.prove("file-created-before-record", log.count("init_output_file") == 1 and "save" in log and log.index("init_output_file") < log.index("save"))
    c.prove("checkpoint", c.eq(log.count("checkpoint"), c.num(sc)))
    c.prove("counters", c.And(c.eq(m._save_iter, 1), c.eq(m._save_time_since_data, 0)))


@goal("C13", "step_order", n=20)
def step_order(c):
    """one timestep: the bed before the step is kept, then water, then sediment"""
    L, W, m = world(c)
    eta = m.eta
    e = c.snap(eta)
    log = []
    for f in ["route_water", "route_sediment"]:
        c.stub(f, lambda self, f=f: log.append(f))
    c.call(m.solve_water_and_sediment_timestep)
    c.prove("order", log == ["route_water", "route_sediment"])
    c.forall("bed-kept", (L, W), lambda i, j: c.And(c.eq(c.at(m.eta0, i, j), e(i, j)), c.eq(c.at(m.eta, i, j), e(i, j))))
    c.prove("bed-copy-is-separate", not c.same_array(m.eta, m.eta0))


WSEQ = ["init_water_iteration", "run_water_iteration", "compute_free_surface", "finalize_water_iteration"]


def _inv_phase(c, e):
    m = e["self"]
    return c.And(c.eq(m.ghost_phase, 0), c.eq(m.ghost_count, e.k))


@goal("C13", "water_iterations", n=20, loops={"route_water": [Loop(1, "phase", _inv_phase)]})
def water_iterations(c):
    """for every number of iterations: set-up, walk, surface, finalisation, in this order"""
    L, W, m = world(c)
    n = m._itermax
    c.set(m, ghost_phase=0, ghost_count=0)

    def mk(k):
        def st(self, *a):
            c.prove("order-%d" % k, c.eq(self.ghost_phase, k))
            if k == 3:
                c.prove("iteration-number", c.eq(a[0], self.ghost_count))
                self.ghost_count = self.ghost_count + 1
            self.ghost_phase = k + 1 if k < 3 else 0
        return st
    for k, f in enumerate(WSEQ):
        c.stub(f, mk(k))
    c.call(m.route_water)
    c.prove("complete", c.eq(m.ghost_phase, 0))
    c.prove("number-of-iterations", c.eq(m.ghost_count, n))


@goal("C13", "sediment_order", n=20)
def sediment_order(c):
    L, W, m = world(c)
    log = []
    sed = ["init_sediment_iteration", "route_all_sand_parcels", "topo_diffusion", "route_all_mud_parcels"]
    for f in sed:
        c.stub(f, lambda self, *a, f=f: log.append(f))
    c.call(m.route_sediment)
    c.prove("sediment", log == sed)
