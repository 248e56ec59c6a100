"""C18 jobs run for their configured duration; C17/C16 multi-job expansion."""
from .common import *

DAY = 86400
YEAR = 86400 * 365.25


@goal("C18", "scale_model_time", n=300)
def scale_time(c):
    t, If = c.real("t", hint=(0, 1e6), pts=[0]), c.real("If", hint=(-0.5, 1.5), pts=[0, 1, 0.5])
    units = c.choice("units", ["seconds", "days", "years", "hours", ""])
    f = c.fn("shared_tools", "scale_model_time")
    r, e = c.attempt(f, t, If, units)
    S = {"seconds": 1, "days": DAY, "years": YEAR}.get(units)
    good = c.And(If > 0, If <= 1)
    if e is not None:
        c.prove("rejects-with-ValueError", isinstance(e, ValueError))
        c.prove("rejects-only-invalid", c.Not(good) if S is not None else c.eq(0, 0))
    else:
        c.prove("invalid-factor-rejected", good)
        c.prove("invalid-unit-rejected", S is not None)
        if S is not None:
            c.prove("scaled", c.eq(r * If * S, t))


@goal("C18", "scale_sea_level_rate", n=100)
def scale_slr(c):
    mm, If = c.real("mm", hint=(-10, 50)), c.real("If", pos=True, hi=1)
    f = c.fn("preprocessor", "scale_relative_sea_level_rise_rate")
    r = c.call(f, mm, If=If)
    c.prove("metres-per-model-second", c.eq(r * 1000 * If * YEAR, mm, tol=1e-9))


def job_model(c, **kw):
    m = c.base()
    t0, dt = c.real("t0", lo=0, hint=(0, 500), pts=[0]), c.real("dt", pos=True, hint=(0.1, 300))
    c.set(m, _time=t0, _dt=dt, **kw)
    return m, t0, dt


def config(c, kind, dt):
    cfg = {"out_dir": "x"}
    If = 1
    if c.choice("If?", [0, 1]):
        If = c.real("If", pos=True, hi=1)
        cfg["If"] = If
    if kind == "timesteps":
        v = c.int("timesteps", 0, None, hint=(0, 40), pts=[0, 1, 3, 10])
        dur = v * dt
    elif kind == "time":
        v = c.real("time", lo=0, hint=(0, 3000), pts=[0])
        dur = v * If
    else:
        v = c.real("time_years", lo=0, hint=(0, 0.0001), pts=[0])
        dur = v * If * YEAR
    cfg[kind] = v
    return cfg, v, dur


def end_inv(c, e):
    t0, dt = c.ghost
    return c.eq(e["self"]._job_end_time, t0 + e.k * dt)


def make_job(c, m, cfg, parallel=False):
    cls = c.fn("preprocessor", "_ParallelJob" if parallel else "_SerialJob")
    made = []

    def Model(*a, **k):
        made.append(k)
        return m
    if parallel:
        job = c.call(cls, 3, Queue(), Sema(), "in.yml", cfg, DeltaModel=Model)
    else:
        job = c.call(cls, 3, "in.yml", cfg, DeltaModel=Model)
    return job, made


class Queue:
    def __init__(self):
        self.log = []

    def put(self, x):
        self.log.append(x)


class Sema:
    def __init__(self):
        self.n = 0

    def release(self):
        self.n += 1


@goal("C18", "job_end_time", n=300, loops={"__init__": [Loop(1, "end", end_inv)]})
def job_end(c):
    m, t0, dt = job_model(c)
    c.ghost = t0, dt
    kind = c.choice("kind", ["timesteps", "time", "time_years"])
    cfg, v, dur = config(c, kind, dt)
    par = c.choice("parallel", [False, True])
    job, made = make_job(c, m, cfg, par)
    c.prove("end-time", c.eq(job._job_end_time, t0 + dur))
    c.prove("one-model", len(made) == 1 and made[0].get("input_file") == "in.yml")
    c.prove("output-deferred-in-parallel-only", bool(made[0].get("defer_output")) == par)
    c.prove("model-clock-untouched", c.And(c.eq(m._time, t0), c.eq(m._dt, dt)))


@goal("C18", "duration_required", n=20)
def duration_required(c):
    m, t0, dt = job_model(c)
    cfg = {"out_dir": "x"}
    cls = c.fn("preprocessor", "_SerialJob")
    r, e = c.attempt(cls, 0, "in.yml", cfg, DeltaModel=lambda *a, **k: m)
    c.prove("missing-duration-rejected", isinstance(e, ValueError))


def run_inv(c, e):
    m, t0, dt, end = c.ghost
    st = e["self"].deltamodel
    n = st._time_iter
    return c.And(c.eq(st._time, t0 + n * dt), 0 <= n, c.Or(c.eq(n, 0), t0 + (n - 1) * dt < end))


def running(c, par, fault, resume=False):
    """run a job whose model advances its clock by the timestep on every update;
    with a fault, update number `at` raises"""
    m, t0, dt = job_model(c, _time_iter=0, _resume_checkpoint=resume)
    log = []
    steps = c.int("steps", 0, None, hint=(0, 12), pts=[0, 1])
    frac = c.real("part", lo=0, hi=1, pts=[0, 0.5])
    end = t0
    if c.sym:
        end = t0 + (steps + frac) * dt
    else:
        for _ in range(steps):
            end = end + dt
        end = end + frac * dt
    c.assume(frac < 1)
    at = c.int("fault_at", 0, None, hint=(0, 6), pts=[0, 1]) if fault else None
    kind = c.choice("error", [RuntimeError, ValueError]) if fault else None
    bad_final = c.choice("finalize_fails", [None, RuntimeError])

    def update(self):
        log.append("update")
        if fault and self._time_iter == at:
            log.append("fault")
            raise user(c, kind("model failure"))
        self._time = self._time + self._dt
        self._time_iter = self._time_iter + 1

    def finalize(self):
        log.append("finalize")
        if bad_final:
            raise user(c, bad_final("cannot finalise"))
    c.stub("update", update)
    c.stub("finalize", finalize)
    for f in ("init_output_file", "output_data", "output_checkpoint"):
        c.stub(f, lambda self, f=f: log.append(f))
    c.stub("load_checkpoint", lambda self, defer_output=False: log.append("load"))
    cls = c.fn("preprocessor", "_ParallelJob" if par else "_SerialJob")
    q, s = Queue(), Sema()
    job = c.new(cls, i=3, deltamodel=m, _job_end_time=end, queue=q, sema=s)
    c.ghost = m, t0, dt, end
    r, e = c.attempt(job.run)
    c.prove("error-does-not-escape", e is None)
    faulted = "fault" in log
    n = m._time_iter
    c.prove("clock", c.eq(m._time, t0 + n * dt))
    if not faulted:
        c.prove("runs-to-the-end", end <= m._time)
        c.prove("number-of-updates", c.eq(n, steps + c.num(frac > 0)))
    c.prove("never-updates-past-the-end", c.Or(c.eq(n, 0), t0 + (n - 1) * dt < end) if c.sym else n <= steps + (frac > 0))
    c.prove("always-finalised-once", log.count("finalize") == 1 and log[-1] == "finalize")
    if par:
        c.prove("slot-released-once", s.n == 1)
        codes = [(x["stage"], x["code"]) for x in q.log]
        c.prove("reports-every-stage", codes == [(0, 0), (1, int(faulted)), (2, int(bad_final is not None))])
        c.prove("reports-own-job", all(x["job"] == 3 for x in q.log))
        want = ["load"] if resume else ["init_output_file", "output_data", "output_checkpoint"]
        c.prove("output-prepared-before-first-step", [x for x in log if x not in ("update", "fault", "finalize")] == want
                and log[:len(want)] == want)
    return m


def user(c, e):
    e.dv_user = True
    return e


RUN = {"run": [Loop(1, "clock", run_inv)]}


@goal("C18", "serial_run", n=300, loops=RUN)
def serial_run(c):
    running(c, False, False)


@goal("C18", "serial_run_with_model_error", n=300, loops=RUN)
def serial_fault(c):
    running(c, False, True)


@goal("C18", "parallel_run", n=300, loops=RUN)
def parallel_run(c):
    running(c, True, False, c.choice("resume", [False, True]))


@goal("C18", "parallel_run_with_model_error", n=300, loops=RUN)
def parallel_fault(c):
    running(c, True, True, c.choice("resume", [False, True]))


@goal("C18", "parallel_slot_released_on_any_error", n=60, loops=RUN)
def parallel_any(c):
    """even an unexpected error type frees the slot other jobs wait for"""
    m, t0, dt = job_model(c, _time_iter=0, _resume_checkpoint=False)
    where = c.choice("where", ["init_output_file", "update", "finalize"])
    for f in ("init_output_file", "output_data", "output_checkpoint", "update", "finalize"):
        def st(self, f=f):
            if f == where:
                raise user(c, KeyError("unexpected"))
            if f == "update":
                self._time = self._time + self._dt
                self._time_iter = self._time_iter + 1
        c.stub(f, st)
    s = Sema()
    end = t0 + 2 * dt
    job = c.new(c.fn("preprocessor", "_ParallelJob"), i=3, deltamodel=m, _job_end_time=end, queue=Queue(), sema=s)
    c.ghost = m, t0, dt, end
    c.attempt(job.run)
    c.prove("slot-released-once", s.n == 1)


def preproc(c, cfg, **attrs):
    """a preprocessor set up by its constructor; the job list is given"""
    c.stub("construct_file_list", lambda self: None)
    pp = c.call(c.fn("preprocessor", "Preprocessor"), **cfg)
    c.set(pp, verbose=0, **attrs)
    return pp


@goal("C18", "run_jobs_serial", n=100, bounded="at most 3 jobs in the list")
def run_jobs(c):
    """every job of the list is set up from its own file and configuration and run exactly once
    (what a run does, also on a model error, is the contract of run: serial_run*)"""
    n = c.choice("jobs", [0, 1, 2, 3])
    models, cfgs = [], []
    for k in range(n):
        m = c.base()
        c.set(m, _time=c.real("t0_%d" % k, lo=0, hint=(0, 50)), _dt=c.real("dt_%d" % k, pos=True, hint=(1, 9)), _index=k)
        models.append(m)
        cfgs.append({"time": c.real("n%d" % k, lo=0, hint=(0, 50))})
    log, made = [], []

    def Model(input_file=None, defer_output=False, **kw):
        made.append(input_file)
        return models[len(made) - 1]

    def run(self):
        log.append(self.deltamodel._index)
        k = self.deltamodel._index
        c.prove("own-end-time", c.eq(self._job_end_time, models[k]._time + cfgs[k]["time"]))
    c.stub("run", run)
    c.stub("_open_yaml", lambda self, f: {})
    pp = preproc(c, {"out_dir": "x"}, _file_list=["f%d" % k for k in range(n)], _config_list=cfgs, _has_set=n > 1)
    r, e = c.attempt(pp.run_jobs, DeltaModel=Model)
    c.prove("no-error", e is None)
    c.prove("every-job-set-up-from-its-file", made == ["f%d" % k for k in range(n)])
    c.prove("every-job-run-once", sorted(log) == list(range(n)))
    c.prove("completed", pp._is_completed is True)


@goal("C18", "duration_argument_over_file", n=100, loops={"__init__": [Loop(1, "end", end_inv)]})
def duration_precedence(c):
    """a run duration given as an argument overrides the one in the input file"""
    kind = c.choice("kind", ["timesteps", "time", "time_years"])
    m, t0, dt = job_model(c)
    mk = (lambda n: c.int(n, 0, None, hint=(0, 30))) if kind == "timesteps" else (lambda n: c.real(n, lo=0, hint=(0, 30)))
    arg, file = mk("argument"), mk("file")
    c.ghost = t0, dt
    given = c.choice("given", ["argument", "file", "both"])
    yml = {"out_dir": "x"}
    if given != "argument":
        yml[kind] = file
    kw = {} if given == "file" else {kind: arg}
    c.stub("_open_yaml", lambda self, f: dict(yml))
    ends = []
    c.stub("run", lambda self: ends.append(self._job_end_time))
    pp = c.call(c.fn("preprocessor", "Preprocessor"), "in.yml", **kw)
    c.call(pp.run_jobs, DeltaModel=lambda **k: m)
    v = file if given == "file" else arg
    unit = {"timesteps": dt, "time": 1, "time_years": YEAR}[kind]
    c.prove("one-job", len(ends) == 1)
    c.prove("duration", c.eq(ends[0], t0 + v * unit))


@goal("C18", "command_line", n=60, sym=False, bounded="the listed command lines")
def command_line(c):
    """durations given on the command line are used; a dry run runs nothing"""
    import sys
    args, want = c.choice("argv", [
        ([], ("timesteps", 4, 1)), (["--timesteps", "3"], ("timesteps", 3, 1)), 
        (["--time", "70.5"], ("time", 70.5, 1)), (["--time", "70.5", "--If", "0.5"], ("time", 70.5, 0.5)),
        (["--time_years", "0.25", "--If", "0.1"], ("time_years", 0.25, 0.1)), (["--time_years", "2"], ("time_years", 2, 1)),
        (["--timesteps", "7", "--dryrun"], None)])
    yml = {"out_dir": "x"}
    if want is None or want[0] == "timesteps" and "--timesteps" not in args:
        yml["timesteps"] = 4
    c.stub("_open_yaml", lambda self, f: dict(yml))
    c.patch(sys, "argv", ["pyDeltaRCM", "--config", "in.yml"] + args)
    m, t0, dt = job_model(c)
    c.ghost = t0, dt
    ends, made = [], []

    def Model(**k):
        made.append(k.get("input_file"))
        return m
    c.stub("run", lambda self: ends.append(self._job_end_time))
    pp = c.call(c.fn("preprocessor", "PreprocessorCLI"))
    c.call(pp.run_jobs, DeltaModel=Model)
    if want is None:
        c.prove("dry-run-runs-nothing", made == [] and ends == [])
        return
    kind, v, If = want
    dur = v * dt if kind == "timesteps" else v * If * (1 if kind == "time" else YEAR)
    c.prove("one-job-of-the-file", made == ["in.yml"] and len(ends) == 1)
    c.prove("duration", c.eq(ends[0], t0 + dur))


@goal("C18", "dryrun", n=10)
def dryrun(c):
    made = []
    m, t0, dt = job_model(c)
    dry = c.choice("dryrun", [True, False])
    c.stub("_open_yaml", lambda self, f: {"timesteps": 1})
    c.stub("run", lambda self: made.append("run"))

    def Model(**k):
        made.append("model")
        return m
    pp = c.call(c.fn("preprocessor", "Preprocessor"), "in.yml", dryrun=dry)
    c.call(pp.run_jobs, DeltaModel=Model)
    c.prove("nothing-run", made == ([] if dry else ["model", "run"]) and len(pp.job_list) == (0 if dry else 1))


@goal("C18", "preprocessor_needs_arguments", n=5)
def needs_arguments(c):
    r, e = c.attempt(c.fn("preprocessor", "Preprocessor"))
    c.prove("rejected", isinstance(e, ValueError))


@goal("C18", "parallel_jobs", sym=False, n=3, conc_budget=60, bounded="real processes: up to 4 jobs on 1 to 3 slots, one of them failing")
def parallel_jobs(c):
    """every job runs once in its own process; a failing job is reported and the others complete"""
    import contextlib, io
    n, slots = c.choice("jobs", [2, 3, 4]), c.choice("slots", [1, 2, 3])
    bad = c.choice("fails", [None, 0, 1])
    err = c.choice("error", [RuntimeError, ValueError])
    d = c.scratch()
    log = c.base().logger

    class Model:
        def __init__(self, input_file=None, defer_output=False):
            self.k = int(input_file)
            self._time, self._dt, self.logger, self.resume_checkpoint = 0.0, 1.0, log, False
            self.trace("init %s" % defer_output)

        def trace(self, x):
            with open(os.path.join(d, "job%d" % self.k), "a") as f:
                f.write(x + "\n")

        def __getattr__(self, name):
            if name.startswith("hook_") or name in ("init_output_file", "output_data", "output_checkpoint"):
                return lambda *a, **k: self.trace(name)
            raise AttributeError(name)

        def update(self):
            if self.k == bad and self._time >= 1:
                raise err("planned failure")
            self._time += self._dt
            self.trace("update")

        def finalize(self):
            self.trace("finalize")
    import os
    pp = preproc(c, {"out_dir": "x", "parallel": slots}, _file_list=[str(k) for k in range(n)],
                 _config_list=[{"timesteps": k + 2} for k in range(n)], _has_set=True)
    c.stub("_open_yaml", lambda self, f: {})
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        c.call(pp.run_jobs, DeltaModel=Model)
    for k in range(n):
        t = open(os.path.join(d, "job%d" % k)).read().split("\n")[:-1]
        c.prove("set-up-once-with-deferred-output", t.count("init True") == 1)
        c.prove("number-of-updates", t.count("update") == (1 if k == bad else k + 2))
        c.prove("finalised-once-at-the-end", t.count("finalize") == 1 and t[-1] == "finalize")
        c.prove("output-before-first-update", "init_output_file" in t and t.index("init_output_file") < t.index("update"))
    c.prove("error-reported", ("planned failure" in out.getvalue()) == (bad is not None))
    c.prove("completed", pp._is_completed is True)
