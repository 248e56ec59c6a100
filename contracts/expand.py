"""C17 multi-job expansion."""
import itertools
import os

from .common import *
from .output import preproc

NAMES = ["f_bedload", "u0", "Np_water"]
FIXED = {"timesteps": 3, "S0": 0.0005, "save_eta_grids": True, "hb": None}


def lists(c, shape):
    """the matrix: one list of distinct unknown values per key"""
    out = {}
    for d, n in enumerate(shape):
        if c.sym:
            vals = [c.int("v%d_%d" % (d, k)) if NAMES[d] == "Np_water" else c.real("v%d_%d" % (d, k)) for k in range(n)]
        else:
            kind = c.choice("kind%d" % d, ["int", "float", "small", "bool", "none", "str", "repeated"])
            mk = {"int": lambda k: 7 * k + d, "float": lambda k: 0.5 * k + 0.25, "small": lambda k: (k + 1) * 1e-7,
                  "bool": lambda k: [True, False, 3][k], "none": lambda k: [None, 1, 2][k],
                  "str": lambda k: "abc"[k], "repeated": lambda k: [2, 2, 5][k]}[kind]
            vals = [mk(k) for k in range(n)]
        out[NAMES[d]] = vals
    return out


def which(c, v, vals):
    """position of a value among the given ones (-1: not one of them)"""
    for i, x in enumerate(vals):
        if c.sym:
            from dv.core import SV
            if isinstance(v, SV) and isinstance(x, SV) and v.t is x.t:
                return i
        elif type(v) is type(x) and v == x:
            return i
    return -1


def read_yaml(c, path):
    if c.sym:
        from dv import io
        import yaml
        with open(path) as f:
            return io.yaml_load(f.read(), c.fn("shared_tools", "custom_yaml_loader")())
    import yaml
    from pyDeltaRCM.shared_tools import custom_yaml_loader
    with open(path) as f:
        return yaml.load(f, Loader=custom_yaml_loader())


def fixed(c):
    d = dict(FIXED)
    if c.sym:
        d["S0"] = c.real("S0")
    return d


def eqv(c, a, b):
    from .config import same
    return same(c, a, b)


def seed_id(c, v):
    return id(v.t) if c.sym and hasattr(v, "t") else int(v)


def check_jobs(c, p, root, base, keys, expected, seeds=0):
    """the jobs are exactly the expected combinations (index tuples), each with its own folder"""
    expected = [tuple(which(c, vals[i], vals) for i, vals in zip(ix, keys.values())) for ix in expected]
    cfgs = list(p.config_list)
    files = [str(f) for f in p.file_list]
    n = len(expected) * max(1, seeds)
    c.prove("number-of-jobs", len(files) == n and len(cfgs) == n)
    folders = []
    got = []
    sd = {}
    for f, cfg in zip(files, cfgs):
        c.prove("configuration-file-exists", os.path.isfile(f))
        y = read_yaml(c, f)
        folder = y.get("out_dir")
        folders.append(folder)
        c.prove("own-folder", isinstance(folder, str) and os.path.isdir(folder) and
                os.path.dirname(os.path.realpath(folder)) == os.path.realpath(root) and
                os.path.realpath(os.path.dirname(f)) == os.path.realpath(folder))
        want = set(base) | set(keys) | {"out_dir"} | ({"seed"} if seeds else set())
        c.prove("keys-of-the-job", set(y) == want)
        for k, v in base.items():
            c.prove("base-value-kept", eqv(c, y.get(k), v))
            c.prove("base-value-kept-in-memory", eqv(c, cfg.get(k), v))
        ix = tuple(which(c, y.get(k), vals) for k, vals in keys.items())
        c.prove("value-from-the-specification", all(i >= 0 for i in ix))
        c.prove("file-agrees-with-memory", set(cfg) == set(y) and all(eqv(c, cfg[k], y[k]) is True or c.entails(eqv(c, cfg[k], y[k])) for k in y))
        got.append(ix)
        if seeds:
            c.prove("seed-in-range", c.And(0 <= y["seed"], y["seed"] < 2 ** 32))
            sd.setdefault(ix, []).append(seed_id(c, y["seed"]))
    c.prove("folders-distinct", len(set(folders)) == len(folders))
    c.prove("each-combination-exactly-once" if not seeds else "each-combination-once-per-member",
            sorted(got) == sorted(list(expected) * max(1, seeds)))
    for ix, s in sd.items():
        c.prove("members-have-separately-drawn-seeds", len(set(s)) >= len(s) // expected.count(ix))
    # the table of parameters written next to the jobs
    t = os.path.join(root, "jobs_parameters.txt")
    c.prove("table-written", os.path.isfile(t))
    with open(t) as f:
        rows = [[x.strip() for x in l.rstrip("\n").split(",")] for l in f if l.strip()]
    head = rows[0]
    c.prove("table-header", head[0] == "job_id" and set(head[1:]) == set(keys) | ({"seed"} if seeds else set()))
    c.prove("table-one-row-per-job", sorted(r[0] for r in rows[1:]) == sorted(os.path.basename(f) for f in folders))
    byid = {os.path.basename(cfg["out_dir"]): cfg for cfg in cfgs}
    for r in rows[1:]:
        for k, v in zip(head[1:], r[1:]):
            c.prove("table-agrees-with-job", v == str(byid[r[0]][k]))


def shapes():
    return [(1,), (2,), (3,), (1, 2), (2, 2), (3, 2), (2, 1, 2), (2, 2, 2)]


@goal("C17", "matrix", n=60, budget=120, bounded="matrices up to 3 keys and 8 jobs, arbitrary values")
def matrix(c):
    shape = c.choice("shape", shapes())
    root = os.path.join(c.scratch(), "jobs")
    keys = lists(c, shape)
    base = fixed(c)
    cfg = dict(base, out_dir=root, matrix={k: list(v) for k, v in keys.items()})
    p = preproc(c, cfg)
    c.call(p.construct_file_list)
    check_jobs(c, p, root, base, keys, list(itertools.product(*[range(n) for n in shape])))


@goal("C17", "ensemble", n=60, budget=120, bounded="ensembles of 2 or 3, alone or with matrices up to 2 keys, arbitrary values")
def ensemble(c):
    shape = c.choice("shape", [(), (2,), (2, 2), (1, 3)])
    n = c.choice("members", [2, 3])
    root = os.path.join(c.scratch(), "jobs")
    keys = lists(c, shape)
    base = fixed(c)
    cfg = dict(base, out_dir=root, ensemble=n)
    if shape:
        cfg["matrix"] = {k: list(v) for k, v in keys.items()}
    p = preproc(c, cfg)
    c.call(p.construct_file_list)
    check_jobs(c, p, root, base, keys, list(itertools.product(*[range(k) for k in shape])), seeds=n)


@goal("C17", "set", n=80, budget=120, bounded="sets of up to 3 jobs with up to 3 keys, ensembles up to 3, arbitrary values")
def sets(c):
    n, k = c.choice("jobs", [1, 2, 3]), c.choice("keys", [1, 2, 3])
    members = c.choice("members", [0, 2, 3])
    root = os.path.join(c.scratch(), "jobs")
    keys = lists(c, (n,) * k)
    base = fixed(c)
    st = []
    for i in range(n):
        d = {nm: keys[nm][i] for nm in keys}
        if i % 2:
            d = dict(reversed(list(d.items())))  # the order of the keys does not matter
        st.append(d)
    cfg = dict(base, out_dir=root)
    cfg["set"] = st
    if members:
        cfg["ensemble"] = members
    p = preproc(c, cfg)
    c.call(p.construct_file_list)
    check_jobs(c, p, root, base, keys, [(i,) * k for i in range(n)], seeds=members)


@goal("C17", "many_jobs", sym=False, n=1, conc_budget=100, bounded="one matrix, one set and one ensemble of more than a thousand jobs each")
def many(c):
    for kind in ("matrix", "set", "ensemble"):
        many_of(c, kind, os.path.join(c.scratch(), kind))


def many_of(c, kind, root):
    base = fixed(c)
    cfg = dict(base, out_dir=root)
    keys, seeds = {}, 0
    if kind == "matrix":
        keys = {"u0": [0.25 * i for i in range(41)], "Np_water": list(range(25))}
        cfg["matrix"] = {k: list(v) for k, v in keys.items()}
        want = list(itertools.product(range(41), range(25)))
    elif kind == "set":
        keys = {"u0": [0.25 * i for i in range(1012)], "Np_water": list(range(1012))}
        cfg["set"] = [{k: v[i] for k, v in keys.items()} for i in range(1012)]
        want = [(i, i) for i in range(1012)]
    else:
        keys = {"u0": [0.25 * i for i in range(11)]}
        cfg.update(matrix={k: list(v) for k, v in keys.items()}, ensemble=95)
        want, seeds = [(i,) for i in range(11)], 95
    p = preproc(c, cfg)
    c.call(p.construct_file_list)
    check_jobs(c, p, root, base, keys, want, seeds=seeds)


@goal("C17", "single_job", n=20, budget=30)
def single(c):
    root = os.path.join(c.scratch(), "jobs")
    base = dict(fixed(c), out_dir=root)
    if c.choice("ensemble-of-one", [False, True]):
        cfg = dict(base, ensemble=1)
    else:
        cfg = dict(base)
    p = preproc(c, cfg)
    c.set(p, _input_file="given.yml")
    c.call(p.construct_file_list)
    c.prove("one-job", [str(x) for x in p.file_list] == ["given.yml"] and len(p.config_list) == 1)
    c.prove("its-configuration", set(p.config_list[0]) == set(base))
    for k in base:
        c.prove("value-kept", eqv(c, p.config_list[0][k], base[k]))
    c.prove("nothing-created", not os.path.exists(root))


BAD = {
    "matrix-and-set": lambda v: dict(matrix={"u0": [v, v]}, set=[{"u0": v}]),
    "key-in-matrix-and-fixed": lambda v: dict(matrix={"S0": [v, v]}),
    "second-key-in-matrix-and-fixed": lambda v: dict(matrix={"u0": [v, v], "timesteps": [v, v]}),
    "nested-list-in-matrix": lambda v: dict(matrix={"u0": [v, [v, v]]}),
    "nested-list-first": lambda v: dict(matrix={"f_bedload": [v, v], "u0": [[v, v], v]}),
    "colon-key-in-matrix": lambda v: dict(matrix={"a:b": [v, v]}),
    "out-dir-in-matrix": lambda v: dict(matrix={"out_dir": ["a", "b"]}),
    "matrix-not-a-mapping": lambda v: dict(matrix=[v, v]),
    "matrix-not-a-mapping-in-ensemble": lambda v: dict(matrix=[v, v], ensemble=2),
    "seed-in-matrix-with-ensemble": lambda v: dict(matrix={"seed": [1, 2]}, ensemble=2),
    "ensemble-not-an-integer": lambda v: dict(ensemble=2.5),
    "ensemble-a-string": lambda v: dict(ensemble="two"),
    "set-not-a-list": lambda v: dict(set={"u0": v}),
    "set-of-non-mappings": lambda v: dict(set=[{"u0": v}, v]),
    "set-with-differing-keys": lambda v: dict(set=[{"u0": v}, {"u0": v, "f_bedload": v}]),
    "set-with-other-key": lambda v: dict(set=[{"u0": v}, {"u0": v}, {"f_bedload": v}]),
    "colon-key-in-set": lambda v: dict(set=[{"a:b": v}, {"a:b": v}]),
}


@goal("C17", "malformed_rejected", n=120, budget=60)
def malformed(c):
    name = c.choice("case", sorted(BAD))
    root = os.path.join(c.scratch(), "jobs")
    v = c.real("v")
    cfg = dict(fixed(c), out_dir=root)
    cfg.update(BAD[name](v))
    p = preproc(c, cfg)
    r, e = c.attempt(p.construct_file_list)
    c.prove("rejected-" + name, isinstance(e, (ValueError, TypeError)))
    c.prove("no-job-left-" + name, len(p.file_list) == 0)
