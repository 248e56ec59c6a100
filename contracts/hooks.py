"""C25 the documented hooks: every hook runs exactly once, immediately before (or after) its step."""
from .common import *
from .jobs import Queue, Sema
from .timestep import CLOCK

INIT = ["import_files", "init_output_infrastructure", "init_logger", "process_input_to_model", "determine_random_seed",
        "create_other_variables", "create_domain", "init_sediment_routers", "init_subsidence", "init_output_file",
        "output_data", "output_checkpoint", "load_checkpoint", "log_info", "log_model_time"]
HOOKS = ["import_files", "process_input_to_model", "create_other_variables", "create_domain", "load_checkpoint",
         "solve_water_and_sediment_timestep", "apply_subsidence", "finalize_timestep", "output_data", "output_checkpoint",
         "route_water", "init_water_iteration", "run_water_iteration", "compute_free_surface", "finalize_water_iteration",
         "route_sediment", "init_sediment_iteration", "route_all_sand_parcels", "topo_diffusion", "route_all_mud_parcels",
         "compute_sand_frac", "init_output_file"]
AFTER = ["create_domain", "route_water", "route_sediment", "finalize_timestep"]
ALL = ["hook_" + f for f in HOOKS] + ["hook_after_" + f for f in AFTER]


def pairs(c, log, steps, allowed):
    """the hooks called are those of the steps, in their places"""
    ok = True
    for f in steps:
        if "hook_" + f in ALL:
            c.prove("called-once:hook_" + f, log.count("hook_" + f) == 1)
            c.prove("before:" + f, log.count(f) == 1 and "hook_" + f in log and log.index("hook_" + f) == log.index(f) - 1)
        if "hook_after_" + f in ALL:
            c.prove("called-once:hook_after_" + f, log.count("hook_after_" + f) == 1)
            c.prove("after:" + f, f in log and "hook_after_" + f in log and log.index("hook_after_" + f) == log.index(f) + 1)
    extra = [x for x in log if x.startswith("hook_") and x not in allowed]
    c.prove("no-other-hook", extra == [])


def spy(c, log, steps):
    for f in steps:
        c.stub(f, lambda self, *a, f=f, **k: log.append(f))
    for h in ALL:
        c.stub(h, lambda self, *a, h=h, **k: log.append(h))


@goal("C25", "model_setup", n=40)
def model_setup(c):
    cls = c.fn("model", "DeltaModel")
    lg = c.base().logger
    log = []
    spy(c, log, INIT)
    resume, defer = c.choice("resume", [False, True]), c.choice("defer", [False, True])

    L, W, w = world(c)

    def setup(self):
        c.set(self, **{k: v for k, v in w.__dict__.items() if k not in CLOCK})
        log.append("hook_import_files")
        c.set(self, logger=lg, _resume_checkpoint=resume, _verbose=0)
    c.stub("hook_import_files", setup)
    quiet = ("log_info", "log_model_time")
    c.stub("log_info", lambda self, *a, **k: None)
    c.stub("log_model_time", lambda self, *a, **k: None)
    c.call(cls, defer_output=defer)
    steps = ["import_files", "process_input_to_model", "create_other_variables", "create_domain"]
    out = ["init_output_file", "output_data", "output_checkpoint"]
    if resume:
        steps = steps + ["load_checkpoint"]
    elif not defer:
        steps = steps + out
    pairs(c, log, steps, ["hook_" + f for f in steps] + ["hook_after_create_domain"])
    c.prove("order", [x for x in log if x in steps] == steps)


@goal("C25", "update", n=40)
def update(c):
    L, W, m = world(c)
    steps = ["solve_water_and_sediment_timestep", "apply_subsidence", "finalize_timestep", "output_data", "output_checkpoint"]
    t = m._time
    log = []
    spy(c, log, steps)
    c.stub("log_model_time", lambda self: None)

    def last(self):
        log.append("hook_after_finalize_timestep")
        c.prove("clock-not-yet-advanced", c.eq(self._time, t))
    c.stub("hook_after_finalize_timestep", last)
    c.call(m.update)
    pairs(c, log, steps, ["hook_" + f for f in steps] + ["hook_after_finalize_timestep"])


@goal("C25", "timestep", n=20)
def timestep(c):
    L, W, m = world(c)
    log = []
    steps = ["route_water", "route_sediment"]
    spy(c, log, steps)
    c.call(m.solve_water_and_sediment_timestep)
    pairs(c, log, steps, ["hook_" + f for f in steps] + ["hook_after_" + f for f in steps])


def _inv(c, e):
    m = e["self"]
    return c.And(c.eq(m.ghost_phase, 0), c.eq(m.ghost_count, e.k))


@goal("C25", "water_iterations", n=20, loops={"route_water": [Loop(1, "phase", _inv)]})
def water_iterations(c):
    L, W, m = world(c)
    n = m._itermax
    c.set(m, ghost_phase=0, ghost_count=0)
    seq = []
    for f in ("init_water_iteration", "run_water_iteration", "compute_free_surface", "finalize_water_iteration"):
        seq += ["hook_" + f, f]

    def mk(k, f):
        def st(self, *a):
            c.prove("in-place:" + f, c.eq(self.ghost_phase, k))
            if k >= 6:
                c.prove("iteration-number:" + f, c.eq(a[0], self.ghost_count))
            if k == 7:
                self.ghost_count = self.ghost_count + 1
            self.ghost_phase = k + 1 if k < 7 else 0
        return st
    spy(c, [], [])
    for k, f in enumerate(seq):
        c.stub(f, mk(k, f))
    c.call(m.route_water)
    c.prove("complete", c.And(c.eq(m.ghost_phase, 0), c.eq(m.ghost_count, n)))


@goal("C25", "sediment", n=20)
def sediment(c):
    L, W, m = world(c)
    log = []
    steps = ["init_sediment_iteration", "route_all_sand_parcels", "topo_diffusion", "route_all_mud_parcels"]
    spy(c, log, steps)
    c.call(m.route_sediment)
    pairs(c, log, steps, ["hook_" + f for f in steps])


@goal("C25", "finalize_timestep", n=40)
def finalize_timestep(c):
    L, W, m = world(c)
    log = []
    spy(c, log, ["flooding_correction", "compute_sand_frac"])
    c.call(m.finalize_timestep)
    pairs(c, log, ["compute_sand_frac"], ["hook_compute_sand_frac"])


def _inv_run(c, e):
    st = e["self"].deltamodel
    return 0 <= st._time_iter


@goal("C25", "parallel_job", n=40, loops={"run": [Loop(1, "clock", _inv_run)]})
def parallel_job(c):
    """a parallel job prepares its output itself, with the same hooks"""
    L, W, m = world(c)
    resume = c.choice("resume", [False, True])
    c.set(m, _time=c.real("t0", lo=0, hint=(0, 5)), _dt=c.real("dt1", pos=True, hint=(1, 2)), _time_iter=0, _resume_checkpoint=resume)
    log = []
    steps = ["init_output_file", "output_data", "output_checkpoint"]
    spy(c, log, steps)

    def upd(self):
        self._time = self._time + self._dt
        self._time_iter = self._time_iter + 1
    c.stub("update", upd)
    c.stub("finalize", lambda self: None)
    c.stub("load_checkpoint", lambda self, defer_output=False: log.append("load_checkpoint"))
    job = c.new(c.fn("preprocessor", "_ParallelJob"), i=3, deltamodel=m, _job_end_time=c.real("end", lo=0, hint=(0, 9)),
                queue=Queue(), sema=Sema())
    c.call(job.run)
    if resume:
        pairs(c, log, ["load_checkpoint"], ["hook_load_checkpoint"])
        c.prove("resumed", not any(x in log for x in steps))
    else:
        pairs(c, log, steps, ["hook_" + f for f in steps])


@goal("C25", "default_hooks_do_nothing", n=40)
def default_hooks(c):
    L, W = dims(c)
    m = model(c, L, W)
    eta = c.arr("eta", (L, W))
    c.set(m, eta=eta)
    e0 = c.snap(eta)
    h = c.choice("hook", ALL)
    keys = sorted(m.__dict__)
    r = c.call(getattr(m, h), *((0,) if h == "hook_finalize_water_iteration" else ()))
    c.prove("returns-nothing", r is None)
    c.prove("no-attribute-added", sorted(m.__dict__) == keys)
    c.forall("state", (L, W), lambda i, j: c.eq(c.at(m.eta, i, j), e0(i, j)))


@goal("C25", "deprecated_hooks_rejected", n=20)
def deprecated(c):
    cls = c.fn("model", "DeltaModel")
    log = []
    spy(c, log, INIT)
    name = c.choice("hook", ["hook_sed_route", "hook_run_one_timestep"])
    m = c.new(cls, logger=c.base().logger, _verbose=0, **{name: lambda: None})
    r, e = c.attempt(m.__init__)
    c.prove("rejected", isinstance(e, AttributeError))
    c.prove("nothing-set-up", log == [])


@goal("C25", "deprecated_methods_forward", n=10)
def forward(c):
    m = c.base()
    log = []
    old, new = c.choice("method", [("run_one_timestep", "solve_water_and_sediment_timestep"), ("sed_route", "route_sediment")])
    c.stub(new, lambda self: log.append(new))
    c.call(getattr(m, old))
    c.prove("forwarded-once", log == [new])
