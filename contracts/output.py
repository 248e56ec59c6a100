"""C14 checkpoints, C15 output records, C16 protection of existing output."""
import os

from .common import *

# documented output variables: configuration flag -> stored name -> model field
GRIDS = {
    "save_eta_grids": {"eta": "eta"},
    "save_stage_grids": {"stage": "stage"},
    "save_depth_grids": {"depth": "depth"},
    "save_discharge_grids": {"discharge": "qw"},
    "save_velocity_grids": {"velocity": "uw"},
    "save_sedflux_grids": {"sedflux": "qs"},
    "save_sandfrac_grids": {"sandfrac": "sand_frac"},
    "save_discharge_components": {"discharge_x": "qx", "discharge_y": "qy"},
    "save_velocity_components": {"velocity_x": "ux", "velocity_y": "uy"},
}
FLAGS = list(GRIDS)
SELECTIONS = [[]] + [[f] for f in FLAGS] + [FLAGS] + [[g for g in FLAGS if g != f] for f in FLAGS]
META_CONST = {"L0": "L0", "N0": "N0", "CTR": "CTR", "dx": "dx", "h0": "h0", "hb": "hb"}
META_TIME = {"H_SL": "H_SL", "f_bedload": "f_bedload", "C0_percent": "C0_percent", "u0": "u0"}
FIELDS = ("eta", "depth", "stage", "uw", "ux", "uy", "qw", "qx", "qy", "sand_frac", "active_layer")
OUT = "pyDeltaRCM_output.nc"


def assign(c, m, name, v):
    if c.sym:
        c.interp.callmap[setattr](m, name, v)
    else:
        setattr(m, name, v)


def out_model(c, sel, meta=False, legacy=False, subside=False, prefix=None, tag=""):
    """a model that is set up but has not opened its output"""
    L, W = dims(c) if not tag else c._dims
    c._dims = L, W
    m = c.base()
    for n in FIELDS + ("qs",):
        c.set(m, **{n: c.arr(tag + n, (L, W), "f")})
    dx = c.real(tag + "dx", pos=True, hint=(1, 8))
    c.set(m, L=L, W=W, prefix=prefix or c.scratch(), _save_fig_list={}, _save_var_list={"meta": {}},
          _netcdf_coords=("total_time", "length", "width") if legacy else ("time", "x", "y"), _legacy_netcdf=legacy,
          _save_metadata=meta, _save_any_grids=bool(sel), _clobber_netcdf=False, _toggle_subsidence=subside,
          _dx=dx, _H_SL=c.real(tag + "H_SL", hint=(-2, 2)), _f_bedload=c.real(tag + "f_bedload", lo=0, hi=1),
          _C0_percent=c.real(tag + "C0", lo=0), _u0=c.real(tag + "u0", pos=True), _h0=c.real(tag + "h0", pos=True),
          _hb=c.real(tag + "hb", pos=True), L0=c.int(tag + "L0", 1, None, hint=(1, 3)),
          N0=c.int(tag + "N0", 3, None, hint=(3, 5)), CTR=c.int(tag + "CTR", 0, None, hint=(0, 4)),
          cell_type=c.arr(tag + "cell_type", (L, W), "i", vals=CELLS),
          sigma=c.arr(tag + "sigma", (L, W), "f"), _start_subsidence=c.int(tag + "start_subsidence", 0, None, hint=(0, 90)),
          xc=c.mk((L,), lambda i: i * dx), yc=c.mk((W,), lambda j: j * dx),
          x=c.mk((L, W), lambda i, j: j, "i"), y=c.mk((L, W), lambda i, j: i, "i"),
          _time=c.real(tag + "time", lo=0), _time_iter=c.int(tag + "iter", 0, None, hint=(0, 9)),
          _save_iter=0, _save_time_since_data=c.real(tag + "since", lo=0, hint=(0, 9)), _save_dt=86400, _checkpoint_dt=86400,
          _save_time_since_checkpoint=0, _save_checkpoint=True, _checkpoint_folder=None, _resume_checkpoint=False)
    m.__dict__.pop("output_netcdf", None)
    if not c.sym:
        c.set(m, __pyDeltaRCM_version__="x")
    else:
        c.set(m, **{"__pyDeltaRCM_version__": "x"})
    # the flags are set to the opposite first: switching one off removes its variables
    for f in FLAGS:
        assign(c, m, f, f not in sel)
    for f in FLAGS:
        assign(c, m, f, f in sel)
    if meta or sel:
        c.set(m, _save_metadata=True)
    return m, L, W


def names(sel):
    return {n: a for f in sel for n, a in GRIDS[f].items()}


def dimlen(c, ds, d):
    x = ds.dimensions[d]
    return x.size


def check_structure(c, m, ds, sel, legacy, subside, L, W, nrec, where=""):
    t, x, y = ("total_time", "length", "width") if legacy else ("time", "x", "y")
    c.prove(where + "dimensions", set(ds.dimensions.keys()) == {t, x, y})
    c.prove(where + "dimension-sizes", c.And(c.eq(dimlen(c, ds, x), L), c.eq(dimlen(c, ds, y), W)))
    c.prove(where + "record-dimension", bool(ds.dimensions[t].isunlimited()))
    c.prove(where + "grid-dimensions-fixed", not ds.dimensions[x].isunlimited() and not ds.dimensions[y].isunlimited())
    # (a new file may hold one blank record, which the first save overwrites)
    c.prove(where + "number-of-records", c.Or(c.eq(dimlen(c, ds, t), nrec), c.And(c.eq(nrec, 0), c.eq(dimlen(c, ds, t), 1))))
    c.prove(where + "variables-as-requested", set(ds.variables.keys()) == {"time", "x", "y"} | set(names(sel)))
    for n in names(sel):
        c.prove(where + "record-layout", tuple(ds.variables[n].dimensions) == (t, x, y))
    mv = set(META_CONST) | set(META_TIME) | {"cell_type"} | ({"start_subsidence", "sigma"} if subside else set())
    c.prove(where + "metadata-group", "meta" in ds.groups)
    c.prove(where + "metadata-as-documented", set(ds.groups["meta"].variables.keys()) == mv)
    for n in list(names(sel)) + ["time", "x", "y"]:
        c.prove(where + "units-given", "units" in ds.variables[n].ncattrs())


def const_value(c, m, n):
    return getattr(m, n)


def check_constants(c, m, ds, legacy, subside, L, W, where=""):
    meta = ds.groups["meta"].variables
    for n in META_CONST:
        c.prove(where + "metadata-" + n, c.eq(c.ncat(meta[n]), const_value(c, m, n)))
    if subside:
        c.prove(where + "metadata-start_subsidence", c.eq(c.ncat(meta["start_subsidence"]), m._start_subsidence))
    g, s = c.snap(m.cell_type), c.snap(m.sigma)

    def cells(i, j):
        d = {"cell_type": c.eq(c.ncat(meta["cell_type"], i, j), g(i, j))}
        if subside:
            d["sigma"] = c.eq(c.ncat(meta["sigma"], i, j), s(i, j))
        if legacy:
            d["x"] = c.eq(c.ncat(ds.variables["x"], i, j), j)
            d["y"] = c.eq(c.ncat(ds.variables["y"], i, j), i)
        return d
    c.forall(where + "static", (L, W), cells)
    if not legacy:
        c.forall(where + "x", (L,), lambda i: c.eq(c.ncat(ds.variables["x"], i), i * m._dx))
        c.forall(where + "y", (W,), lambda j: c.eq(c.ncat(ds.variables["y"], j), j * m._dx))


def fill_records(c, m, ds, sel, n, L, W, legacy):
    """ghost history: n earlier records of arbitrary content; returns accessors"""
    g = {}
    tm = c.arr("h_time", (n,), "f")
    meta = {k: c.arr("h_" + k, (n,), "f") for k in META_TIME}
    grid = {k: c.arr("h_" + k, (n, L, W), "f") for k in names(sel)}
    ds.variables["time"][:] = tm
    for k, a in meta.items():
        ds.groups["meta"].variables[k][:] = a
    for k, a in grid.items():
        ds.variables[k][:] = a
    ds.sync()
    return c.snap(tm), {k: c.snap(a) for k, a in meta.items()}, {k: c.snap(a) for k, a in grid.items()}


def check_history(c, ds, hist, n, L, W, where="earlier-records-kept"):
    tm, meta, grid = hist
    c.forall(where, (n,), lambda k: dict(
        {"time": c.eq(c.ncat(ds.variables["time"], k), tm(k))},
        **{v: c.eq(c.ncat(ds.groups["meta"].variables[v], k), meta[v](k)) for v in meta}))
    c.forall(where, (n, L, W), lambda k, i, j: {
        v: c.eq(c.ncat(ds.variables[v], k, i, j), grid[v](k, i, j)) for v in grid})


# ---------------------------------------------------------------- C15


@goal("C15", "output_file_created_as_requested", n=60, budget=240,
      bounded="selections of variables: none, each alone, all, all but one (any grid size and values)")
def created(c):
    sel = SELECTIONS[c.choice("selection", list(range(len(SELECTIONS))))]
    legacy, subside = c.choice("legacy", [False, True]), c.choice("subsidence", [False, True])
    m, L, W = out_model(c, sel, meta=c.choice("metadata", [False, True]) if not sel else False, legacy=legacy, subside=subside)
    want = m._save_metadata
    c.call(m.init_output_file)
    p = os.path.join(m.prefix, OUT)
    if not want:
        c.prove("no-file-unless-requested", not os.path.exists(p))
        return
    ds = m.output_netcdf
    check_structure(c, m, ds, sel, legacy, subside, L, W, 0)
    check_constants(c, m, ds, legacy, subside, L, W)


@goal("C15", "grids_imply_metadata", n=60, budget=60)
def any_grids(c):
    m = c.base()
    flags = {f: c.bool(f) for f in FLAGS}
    meta = c.bool("meta")
    for f in FLAGS:
        c.set(m, **{"_" + f: flags[f]})
    c.set(m, _save_metadata=meta, _Np_water=3, _Np_sed=3, _dx=c.real("dx", pos=True, hint=(1, 8)),
          _Length=c.real("Length", pos=True, hint=(40, 90)), _Width=c.real("Width", pos=True, hint=(40, 90)))
    for n in ("_coeff_theta_sand", "_theta_water", "_coeff_theta_mud", "_coeff_U_dep_mud", "_u0", "_coeff_U_ero_sand", "_coeff_U_ero_mud"):
        c.set(m, **{n: 1})
    c.assume(m._dx <= m._Length, m._dx <= m._Width)
    c.stub("set_constants", lambda *a: None)
    c.stub("create_boundary_conditions", lambda *a: None)
    c.call(m.create_other_variables)
    want = c.Or(*flags.values())
    c.prove("grids-saved-iff-any-requested", c.Iff(want, m._save_any_grids))
    c.prove("metadata-saved-iff-requested-or-any-grid", c.Iff(c.Or(meta, want), m._save_metadata))


@goal("C15", "save_appends_one_record", n=80, budget=300,
      bounded="selections of variables: none, each alone, all, all but one (any grid size, values and record count)")
def append(c):
    sel = SELECTIONS[c.choice("selection", list(range(len(SELECTIONS))))]
    legacy = c.choice("legacy", [False, True])
    m, L, W = out_model(c, sel, meta=True, legacy=legacy)
    c.call(m.init_output_file)
    ds = m.output_netcdf
    n = c.int("records", 0, None, hint=(0, 3))
    hist = fill_records(c, m, ds, sel, n, L, W, legacy)
    dt = c.int("save_dt", 1, None, hint=(1, 6))
    since = c.real("since_save", lo=0, hint=(0, 8), pts=[1, 2, 3])
    c.set(m, _save_iter=n, _save_dt=dt, _save_time_since_data=since)
    before = {a: c.snap(getattr(m, a)) for a in set(names(sel).values())}
    vals = {v: getattr(m, a) for v, a in META_TIME.items()}
    tnow = m._time
    if c.choice("via", ["output_data", "save_grids_and_figs"]) == "output_data":
        c.call(m.output_data)
        due = c.case(since >= dt)
    else:
        c.call(m.save_grids_and_figs)
        due = True
    t = "total_time" if legacy else "time"
    if c.sym:
        c.prove("record-flushed-to-the-file", ds._store.synced)
    else:
        ds = c.dataset(os.path.join(m.prefix, OUT))
    if not due:
        c.prove("no-record-before-it-is-due", c.eq(dimlen(c, ds, t), c.max(n, 1)))
        check_history(c, ds, hist, n, L, W)
        return
    check_structure(c, m, ds, sel, legacy, False, L, W, n + 1)
    c.prove("record-time", c.eq(c.ncat(ds.variables["time"], n), tnow))
    for v in META_TIME:
        c.prove("record-metadata-" + v, c.eq(c.ncat(ds.groups["meta"].variables[v], n), vals[v]))
    c.forall("record", (L, W), lambda i, j: {
        v: c.eq(c.ncat(ds.variables[v], n, i, j), before[a](i, j)) for v, a in names(sel).items()})
    check_history(c, ds, hist, n, L, W)
    check_constants(c, m, ds, legacy, False, L, W, "after-save-")
    for a in before:
        c.forall("field-not-changed-by-saving", (L, W), lambda i, j: c.eq(c.at(getattr(m, a), i, j), before[a](i, j)))


# ---------------------------------------------------------------- C16


@goal("C16", "output_file_start", n=60, budget=60)
def start(c):
    """starting output when the target exists / does not exist, overwrite configured or not"""
    sel = c.choice("grids", [[], ["save_eta_grids"]])
    m, L, W = out_model(c, sel, meta=c.choice("metadata", [False, True]))
    p = os.path.join(m.prefix, OUT)
    exists, clobber = c.choice("exists", [False, True]), c.choice("clobber", [False, True])
    text = c.choice("contents", ["earlier results", ""]) if exists else ""
    other = os.path.join(m.prefix, "keep.txt")
    with open(other, "w") as f:
        f.write("mine")
    if exists:
        with open(p, "w") as f:
            f.write(text)
    c.set(m, _clobber_netcdf=clobber)
    r, e = c.attempt(m.init_output_file)
    wanted = m._save_metadata or m._save_any_grids
    with open(other) as f:
        c.prove("other-files-untouched", f.read() == "mine")
    if exists and not clobber:
        if wanted:
            c.prove("existing-output-refused", isinstance(e, FileExistsError))
        with open(p) as f:
            c.prove("existing-output-untouched", f.read() == text)
        c.prove("no-other-file", sorted(os.listdir(m.prefix)) == ["keep.txt", OUT])
    else:
        c.prove("accepted", e is None)
        if wanted:
            c.prove("output-created", os.path.isfile(p) and hasattr(m, "output_netcdf"))
            ds = m.output_netcdf
            c.prove("output-is-new", dimlen(c, ds, "time") <= 1)


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d)] = None
        for x in fs:
            with open(os.path.join(r, x)) as f:
                out[os.path.relpath(os.path.join(r, x), d)] = f.read()
    return out


def preproc(c, cfg):
    p = c.new(c.fn("preprocessor", "BasePreprocessor"))
    c.set(p, _input_file=None, _has_ensemble=False, _has_set=False, _has_matrix=False, _file_list=[], _config_list=[],
          _job_list=[], _dryrun=False, _is_completed=False, config_dict=cfg, verbose=0)
    return p


RESUME = [("absent", None), ("false", False), ("true", True)]


@goal("C16", "multijob_root", n=40, budget=60)
def multijob_root(c):
    d = c.scratch()
    root = os.path.join(d, "jobs")
    exists = c.choice("exists", [False, "empty", "full"])
    kind, val = c.choice("resume", RESUME)
    cfg = {"out_dir": root}
    if kind != "absent":
        cfg["resume_checkpoint"] = val
    if exists == "empty":
        os.makedirs(root)
    if exists == "full":
        os.makedirs(os.path.join(root, "job_000"))
        with open(os.path.join(root, "job_000", "r.nc"), "w") as f:
            f.write("data")
    before = tree(d)
    p = preproc(c, cfg)
    r, e = c.attempt(p._prepare_multijob_output)
    after = tree(d)
    if exists and val is not True:
        c.prove("existing-root-refused", isinstance(e, FileExistsError))
        c.prove("nothing-touched", after == before)
    else:
        c.prove("accepted", e is None)
        c.prove("contents-kept", {k: v for k, v in after.items() if k in before} == before)
        c.prove("root-exists", os.path.isdir(root))


@goal("C16", "multijob_needs_out_dir", n=4, budget=20)
def multijob_out_dir(c):
    p = preproc(c, {"eta": 1})
    c.scratch()
    r, e = c.attempt(p._prepare_multijob_output)
    c.prove("out-dir-required", isinstance(e, ValueError))


@goal("C16", "job_folders", n=60, budget=60, bounded="up to 3 jobs")
def job_folders(c):
    d = c.scratch()
    n = c.choice("jobs", [1, 2, 3])
    kind, val = c.choice("resume", RESUME)
    have = [c.choice("exists%d" % i, [False, True]) for i in range(n)]
    base = {"out_dir": d}
    if kind != "absent":
        base["resume_checkpoint"] = val
    cfgs = []
    for i in range(n):
        f = os.path.join(d, "job_%03d" % i)
        x = dict(base)
        x["out_dir"] = f
        x["u0"] = c.real("u0_%d" % i, pos=True)
        cfgs.append(x)
        if have[i]:
            os.mkdir(f)
            with open(os.path.join(f, "r.nc"), "w") as g:
                g.write("data%d" % i)
    before = tree(d)
    p = preproc(c, base)
    c.set(p, _config_list=cfgs, _has_set=True, _jobs_root=d)
    r, e = c.attempt(p._write_job_configs)
    after = tree(d)
    c.prove("existing-contents-untouched", {k: v for k, v in after.items() if k in before} == before)
    if any(have) and val is not True:
        c.prove("existing-job-folder-refused", isinstance(e, FileExistsError))
        k = have.index(True)
        c.prove("refused-folder-unchanged", {x: v for x, v in after.items() if x.startswith("job_%03d" % k)} ==
                {x: v for x, v in before.items() if x.startswith("job_%03d" % k)})
    else:
        c.prove("accepted", e is None)
        for i in range(n):
            c.prove("job-folder-exists", os.path.isdir(cfgs[i]["out_dir"]))


# ---------------------------------------------------------------- C14


def ckpt_vals(m):
    return {"time": m._time, "H_SL": m._H_SL, "time_iter": m._time_iter, "save_iter": m._save_iter,
            "save_time_since_data": m._save_time_since_data}


def same_rng(c, a, b):
    if c.sym:
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and \
            all(x is y or c.entails(c.eq(x, y)) for x, y in zip(a, b))
    def flat(x):
        return [flat(y) for y in x] if hasattr(x, "__len__") else x
    return flat(a) == flat(b)


def new_rng(c, tag):
    if c.sym:
        return (c.fresh_int("pos" + tag), ("keys" + tag,))
    import random
    r = random.Random(tag + str(c.inputs.get("L")))
    return (r.randint(0, 623), [r.randint(0, 2 ** 32 - 1) for _ in range(624)])


@goal("C14", "checkpoint_round_trip", n=80, budget=120)
def round_trip(c):
    m1, L, W = out_model(c, [], tag="")
    c.set(m1, _save_iter=c.int("save_iter", 0, None, hint=(0, 9)))
    if c.choice("never-saved", [False, True]):
        c.set(m1, _save_time_since_data=float("inf"))
    if c.choice("earlier-checkpoint", [False, True]):
        # an earlier checkpoint in the same place is superseded
        keep = {f: getattr(m1, f) for f in FIELDS}
        c.set(m1, **{f: c.arr("old_" + f, (L, W), "f") for f in FIELDS})
        t = m1._time
        c.set(m1, _time=t / 2)
        c.rng_state(new_rng(c, "old"))
        c.call(m1.save_the_checkpoint)
        c.set(m1, _time=t, **keep)
    rng = new_rng(c, "saved")
    c.rng_state(rng)
    want = ckpt_vals(m1)
    flds = {f: c.snap(getattr(m1, f)) for f in FIELDS}
    c.call(m1.save_the_checkpoint)
    c.prove("saving-keeps-the-generator", same_rng(c, c.rng_state(), rng))
    for f in FIELDS:
        c.forall("saving-keeps-the-state", (L, W), lambda i, j: {f: c.eq(c.at(getattr(m1, f), i, j), flds[f](i, j))})
    # the running model moves on after the checkpoint
    for f in FIELDS:
        getattr(m1, f)[:] = 0
    c.rng_state(new_rng(c, "later"))
    m2, _, _ = out_model(c, [], tag="fresh_")
    c.set(m2, _checkpoint_folder=m1.prefix, _resume_checkpoint=True)
    c.call(m2.load_checkpoint, c.choice("defer", [False, True]))
    got = ckpt_vals(m2)
    for k in want:
        a, b = got[k], want[k]
        c.prove("restored-" + k, a == b if isinstance(b, float) and b == float("inf") else c.eq(a, b))
    c.prove("restored-random-generator", same_rng(c, c.rng_state(), rng))
    c.prove("restored-shapes", c.And(*[c.And(c.eq(c.shape(getattr(m2, f))[0], L), c.eq(c.shape(getattr(m2, f))[1], W)) for f in FIELDS]))
    for f in FIELDS:
        c.forall("restored", (L, W), lambda i, j: {f: c.eq(c.at(getattr(m2, f), i, j), flds[f](i, j))})


@goal("C13", "checkpoint_interval_after_resume", n=60, budget=60)
def resumed_clock(c):
    """after resuming, the checkpoint loaded is the last one written: the next is due one interval later"""
    m1, L, W = out_model(c, [], tag="")
    c.rng_state(new_rng(c, "saved"))
    c.call(m1.save_the_checkpoint)
    m2, _, _ = out_model(c, [], tag="fresh_")
    c.set(m2, _checkpoint_folder=m1.prefix, _resume_checkpoint=True, _save_time_since_checkpoint=float("inf"))
    c.call(m2.load_checkpoint, c.choice("defer", [False, True]))
    c.prove("time", c.eq(m2._time, m1._time))
    c.prove("time-since-output", c.eq(m2._save_time_since_data, m1._save_time_since_data))
    t = c.real("elapsed", pos=True, hint=(0, 20), pts=[4])
    c.set(m2, _checkpoint_dt=c.real("interval", pos=True, hint=(0, 20), pts=[4, 8]), _save_dt=5, _save_checkpoint=True)
    log = []
    c.stub("save_the_checkpoint", lambda self: log.append(1))
    if m2._save_time_since_checkpoint == float("inf"):
        c.prove("interval-restarts", False)
    c.set(m2, _save_time_since_checkpoint=m2._save_time_since_checkpoint + t)
    c.call(m2.output_checkpoint)
    c.prove("checkpoint-exactly-when-due", c.Iff(len(log) == 1, m2._checkpoint_dt <= t))


@goal("C14", "output_continued_after_resume", n=50, budget=300,
      bounded="selections of variables: none, one, all (any grid size, values and record count)")
def resume_output(c):
    sel = c.choice("selection", [[], ["save_eta_grids"], ["save_velocity_components"], FLAGS])
    legacy, subside = c.choice("legacy", [False, True]), c.choice("subsidence", [False, True])
    m1, L, W = out_model(c, sel, meta=True, legacy=legacy, subside=subside)
    c.call(m1.init_output_file)
    n = c.int("records", 0, None, hint=(0, 3))
    hist = fill_records(c, m1, m1.output_netcdf, sel, n, L, W, legacy)
    c.set(m1, _save_iter=n)
    c.rng_state(new_rng(c, "saved"))
    c.call(m1.save_the_checkpoint)
    attrs = {v: {a: m1.output_netcdf.variables[v].getncattr(a) for a in m1.output_netcdf.variables[v].ncattrs()}
             for v in m1.output_netcdf.variables}
    mattrs = {v: {a: x.getncattr(a) for a in x.ncattrs()} for v, x in m1.output_netcdf.groups["meta"].variables.items()}
    gattrs = {a: m1.output_netcdf.getncattr(a) for a in m1.output_netcdf.ncattrs()}
    m1.output_netcdf.close()
    m2, _, _ = out_model(c, sel, meta=True, legacy=legacy, subside=subside, prefix=m1.prefix, tag="fresh_")
    c.set(m2, _checkpoint_folder=m1.prefix, _resume_checkpoint=True)
    files = set(os.listdir(m1.prefix))
    c.call(m2.load_checkpoint)
    c.prove("no-stray-files", set(os.listdir(m1.prefix)) == files)
    ds = m2.output_netcdf
    check_structure(c, m2, ds, sel, legacy, subside, L, W, n, "resumed-")
    check_constants(c, m1, ds, legacy, subside, L, W, "resumed-")
    check_history(c, ds, hist, n, L, W, "resumed-records")
    c.prove("file-attributes-kept", {a: ds.getncattr(a) for a in ds.ncattrs()} == gattrs)
    for v in attrs:
        c.prove("variable-attributes-kept", {a: ds.variables[v].getncattr(a) for a in ds.variables[v].ncattrs()} == attrs[v])
    for v in mattrs:
        x = ds.groups["meta"].variables[v]
        c.prove("metadata-attributes-kept", {a: x.getncattr(a) for a in x.ncattrs()} == mattrs[v])
    # the next save continues the record
    before = {a: c.snap(getattr(m2, a)) for a in set(names(sel).values())}
    tnow = m2._time
    c.call(m2.save_grids_and_figs)
    c.prove("next-save-appends", c.eq(dimlen(c, ds, "total_time" if legacy else "time"), n + 1))
    c.prove("next-record-time", c.eq(c.ncat(ds.variables["time"], n), tnow))
    c.forall("next-record", (L, W), lambda i, j: {
        v: c.eq(c.ncat(ds.variables[v], n, i, j), before[a](i, j)) for v, a in names(sel).items()})
    check_history(c, ds, hist, n, L, W, "resumed-records-after-save")


@goal("C14", "resume_without_output_file", n=30, budget=60)
def resume_missing(c):
    sel = c.choice("selection", [["save_eta_grids"], FLAGS])
    m1, L, W = out_model(c, sel, meta=True)
    c.set(m1, _save_iter=c.int("save_iter", 0, None, hint=(0, 9)))
    c.rng_state(new_rng(c, "saved"))
    c.call(m1.save_the_checkpoint)
    t = m1._time
    m2, _, _ = out_model(c, sel, meta=True, prefix=m1.prefix, tag="fresh_")
    c.set(m2, _checkpoint_folder=m1.prefix, _resume_checkpoint=True)
    c.call(m2.load_checkpoint)
    c.prove("time-restored", c.eq(m2._time, t))
    c.prove("new-file-starts-at-record-zero", c.eq(m2._save_iter, 0))
    check_structure(c, m2, m2.output_netcdf, sel, False, False, L, W, 0, "new-")


@goal("C14", "checkpoint_location", n=20, budget=20)
def location(c):
    """resume from the configured folder, by default from the output folder"""
    m = c.base()
    c.set(m, prefix="out")
    v = c.choice("resume", [True, False, "elsewhere"])
    assign(c, m, "resume_checkpoint", v)
    c.prove("resumes-iff-configured", bool(c.call(getattr, m, "resume_checkpoint")) == (v is not False))
    if v is not False:
        c.prove("folder", str(m._checkpoint_folder) == ("elsewhere" if v == "elsewhere" else "out"))
    # the checkpoint is read from there
    m1, L, W = out_model(c, [])
    c.rng_state(new_rng(c, "saved"))
    c.call(m1.save_the_checkpoint)
    t = m1._time
    m2, _, _ = out_model(c, [], tag="fresh_")
    own = c.choice("own-checkpoint", [False, True])
    if own:
        c.call(m2.save_the_checkpoint)
    assign(c, m2, "resume_checkpoint", m1.prefix)
    c.call(m2.load_checkpoint)
    c.prove("read-from-the-configured-folder", c.eq(m2._time, t))


# ---------------------------------------------------------------- C15 figures

FIGS = {"save_eta_figs": ("eta", "eta"), "save_stage_figs": ("stage", "stage"), "save_depth_figs": ("depth", "depth"),
        "save_discharge_figs": ("discharge", "qw"), "save_velocity_figs": ("velocity", "uw"),
        "save_sedflux_figs": ("sedflux", "qs"), "save_sandfrac_figs": ("sandfrac", "sand_frac")}
FSEL = [[]] + [[f] for f in FIGS] + [list(FIGS)] + [[g for g in FIGS if g != f] for f in FIGS]


class Fig:
    def __init__(self, log, what):
        self.log, self.what = log, what

    def savefig(self, path, *a, **k):
        self.log.append((self.what, str(path)))


@goal("C15", "figures_as_requested", n=60, budget=60,
      bounded="selections of figures: none, each alone, all, all but one (any grid size and values)")
def figures(c):
    sel = FSEL[c.choice("selection", list(range(len(FSEL))))]
    seq = c.choice("sequential", [True, False])
    m, L, W = out_model(c, [], prefix="some_folder")
    n = c.choice("save_iter", [0, 3, 12345, 1234567])
    c.set(m, _save_iter=n, _save_figs_sequential=seq, _save_metadata=False)
    for f in FIGS:
        assign(c, m, f, f not in sel)
    for f in FIGS:
        assign(c, m, f, f in sel)
    log, made = [], []

    def make(self, var, time):
        made.append(var)
        c.prove("figure-at-current-time", c.eq(time, self._time))
        return Fig(log, var)
    c.stub("make_figure", make)
    c.call(m.save_grids_and_figs)
    num = "%05d" % n if seq else "latest"
    want = sorted((FIGS[f][1], os.path.join("some_folder", "%s_%s.png" % (FIGS[f][0], num))) for f in sel)
    c.prove("each-requested-figure-saved-once", sorted(log) == want)


@goal("C15", "figure_shows_the_field", sym=False, n=20, bounded="plotting is matplotlib; compared on sampled fields")
def figure_data(c):
    import numpy as np
    m, L, W = out_model(c, [])
    var = c.choice("var", [a for n, a in FIGS.values()])
    X, Y = np.meshgrid(np.arange(0, W + 1) * m._dx, np.arange(0, L + 1) * m._dx)
    c.set(m, X=X, Y=Y, _Width=W * m._dx, _Length=L * m._dx)
    fig = c.call(m.make_figure, var, m._time)
    mesh = [a for ax in fig.axes for a in ax.collections if a.get_array() is not None and a.get_array().size == L * W]
    c.prove("one-map", len(mesh) >= 1)
    c.prove("shows-the-field", np.allclose(np.ravel(mesh[0].get_array()), np.ravel(getattr(m, var))))
    title = fig.axes[0].get_title()
    c.prove("title", str(var) in title and str(m._time) in title)
    import matplotlib.pyplot as plt
    plt.close(fig)


@goal("C15", "figure_of_wrong_shape_rejected", n=20, budget=30)
def figure_shape(c):
    m, L, W = out_model(c, [], prefix="some_folder")
    c.set(m, _save_figs_sequential=True, _save_metadata=False)
    kind = c.choice("kind", ["ok", "shape", "rank", "type"])
    v = {"ok": lambda: c.arr("v", (L, W)), "shape": lambda: c.arr("v", (L + 1, W)), "rank": lambda: c.arr("v", (L,)),
         "type": lambda: 3.0}[kind]()
    c.set(m, my_attr=v, _save_fig_list={"mine": ["my_attr"]})
    log = []
    c.stub("make_figure", lambda self, var, time: Fig(log, var))
    r, e = c.attempt(m.save_grids_and_figs)
    if kind == "ok":
        c.prove("custom-figure-saved", e is None and len(log) == 1 and log[0][0] == "my_attr")
    else:
        c.prove("rejected", isinstance(e, AttributeError) and log == [])
