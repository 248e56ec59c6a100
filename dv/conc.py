"""Concrete back end: evaluates the same contracts on the real, imported code.
Used (a) to replay a failed obligation and find a failing input, (b) as the
labelled bounded stand-in where the verifier cannot reach, (c) as a conformance
run of the verifier's model of numpy."""
import copy
import importlib
import itertools
import json
import math
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from .spec import Skip, Discard, Violation

RTOL, ATOL = 2e-6, 1e-8
KIND = {"f": np.float64, "i": np.int64, "b": bool}


class Timeout(BaseException):
    pass


class Logger:
    handlers = []

    def info(self, *a, **k):
        pass
    warning = error = debug = exception = critical = info

    def addHandler(self, *a):
        pass
    removeHandler = addHandler


_BASE = {}


def base_model():
    if "m" not in _BASE:
        from pyDeltaRCM.model import DeltaModel
        d = tempfile.mkdtemp(prefix="dvbase_")
        _BASE["dir"] = d
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = DeltaModel(out_dir=os.path.join(d, "out"), Length=600., Width=1000., dx=50., L0_meters=100.,
                           N0_meters=200., seed=1, Np_water=6, Np_sed=6, itermax=1, f_bedload=0.5,
                           save_checkpoint=False, defer_output=True)
        for h in list(m.logger.handlers):
            h.close()
            m.logger.removeHandler(h)
        m.logger = Logger()
        m._verbose = 0
        _BASE["m"] = m
    return _BASE["m"]


def cleanup():
    d = _BASE.get("dir")
    if d and os.path.isdir(d):
        shutil.rmtree(d, ignore_errors=True)
    _BASE.clear()


def jsonable(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (np.generic,)):
        return v.item()
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, (int, float, bool, str)) or v is None:
        return v
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    return repr(v)


class ConC:
    sym = False
    mode = "conc"

    def __init__(self, rng, goal, hints=None, budget=None):
        self.rng, self.goal = rng, goal
        self.hints = hints or {}
        self.inputs = {}
        self.undo = []
        self.nchecks = 0
        self.scratchdirs = []
        self.opened = []
        self._warn = []
        self.made = []
        self.given = {}

    # ---------------------------------------------------------------- inputs
    def _rec(self, name, v):
        n, base = 0, name
        while name in self.inputs:
            n += 1
            name = "%s!%d" % (base, n)
        self.inputs[name] = copy.copy(v) if isinstance(v, np.ndarray) else v
        return v

    def int(self, name, lo=None, hi=None, hint=None, pts=None):
        if self.hints.get(name) is not None:
            return self._rec(name, int(self.hints[name]))
        a = hint[0] if hint else (lo if lo is not None else -3)
        b = hint[1] if hint else (hi if hi is not None else a + 4)
        a, b = int(a), int(b)
        if lo is not None:
            a = max(a, int(lo))
        if hi is not None:
            b = min(b, int(hi))
        if b < a:
            raise Discard()
        ps = [p for p in (pts or []) if (lo is None or p >= lo) and (hi is None or p <= hi)]
        if ps and self.rng.random() < 0.5:
            return self._rec(name, int(self.rng.choice(ps)))
        return self._rec(name, self.rng.randint(a, b))

    def _one(self, lo, hi, hint, pts, pos):
        r = self.rng
        ps = [float(p) for p in (pts or []) if (lo is None or p >= lo) and (hi is None or p <= hi)]
        if ps and r.random() < 0.4:
            return r.choice(ps)
        a = hint[0] if hint else (lo if lo is not None else (0.0 if pos else -4.0))
        b = hint[1] if hint else (hi if hi is not None else a + (4.0 if (pos or lo is not None) else 8.0))
        den = r.choice([1, 2, 4, 8, 64])
        ka, kb = math.ceil(a * den), math.floor(b * den)
        if kb < ka:
            v = float(a) + (float(b) - float(a)) * r.choice([0, 0.25, 0.5, 0.75, 1])
        else:
            v = r.randint(ka, kb) / den
        if pos and v <= 0:
            v = 1.0 / 8
            if hi is not None and v > hi:
                v = float(hi) / 2
        return float(v)

    def real(self, name, lo=None, hi=None, hint=None, pts=None, pos=False):
        if self.hints.get(name) is not None:
            return self._rec(name, float(self.hints[name]))
        v = self._one(lo, hi, hint, pts, pos)
        if hint is None and self.rng.random() < 0.07:
            v = self._tiny([v], lo, hi)[0]
        return self._rec(name, v)

    def _tiny(self, el, lo, hi):
        """the same values at a much smaller scale (a power of two), where the bounds allow it"""
        s = 2.0 ** -self.rng.choice([8, 12, 17])
        if all((lo is None or v * s >= lo) and (hi is None or v * s <= hi) for v in el):
            return [v * s for v in el]
        return el

    def bool(self, name):
        if self.hints.get(name) is not None:
            return self._rec(name, bool(self.hints[name]))
        return self._rec(name, self.rng.random() < 0.5)

    def rarely(self, name):
        """a special case worth meeting (symbolically the general case contains it)"""
        return self._rec(name, bool(self.hints[name]) if name in self.hints else self.rng.random() < 0.2)

    def choice(self, name, options):
        k = self.rng.randrange(len(options))
        if "choice:" + name in self.hints:
            k = self.hints["choice:" + name]
        self._rec("choice:" + name, k)
        return options[k]

    def arr(self, name, shape, dt="f", lo=None, hi=None, vals=None, pts=None, pos=False, eq=None, hint=None):
        r = self.rng
        shape = tuple(int(s) for s in shape)
        n = int(np.prod(shape)) if shape else 1
        hc = self.hints.get(name)
        if hc is not None and not isinstance(hc, dict):
            a = np.array(hc, dtype=KIND[dt]).reshape(shape)
            self._rec(name, a)
            return a

        def one():
            if vals is not None:
                return r.choice(list(vals))
            if dt == "b":
                return r.random() < 0.5
            if dt == "i":
                a = int(lo) if lo is not None else -3
                b = int(hi) if hi is not None else a + 6
                return r.randint(a, b)
            return self._one(lo, hi, hint, pts, pos)

        k = r.random()
        if k < 0.12:
            v = one()
            el = [v] * n
        elif k < 0.45:
            pool = [one() for _ in range(r.choice([2, 3]))]
            w = r.random()
            el = [pool[0] if r.random() < w else r.choice(pool) for _ in range(n)]
        else:
            el = [one() for _ in range(n)]
        if dt == "f" and vals is None and hint is None and r.random() < 0.07:
            el = self._tiny(el, lo, hi)
        a = np.array(el, dtype=KIND[dt]).reshape(shape)
        if hc is not None:
            for ix, v in hc["cells"]:
                if v is not None and len(ix) == len(shape) and all(
                        isinstance(i, int) and 0 <= i < n for i, n in zip(ix, shape)):
                    a[tuple(ix)] = v
        self._rec(name, a)
        return a

    def pick(self, k, vals):
        return vals[int(k)]

    def psum(self, name, nargs, fn):
        return lambda *a: sum(fn(*a[:-1], t) for t in range(int(a[-1])))

    def dtype(self, a):
        return {"f": "f", "i": "i", "b": "b", "u": "i"}[a.dtype.kind]

    def zeros(self, shape, dt="f"):
        return np.zeros(tuple(shape), dtype=KIND[dt])

    def ones(self, shape, dt="f"):
        return np.ones(tuple(shape), dtype=KIND[dt])

    def mk(self, shape, fn, dt="f"):
        a = np.zeros(tuple(int(s) for s in shape), dtype=KIND[dt])
        for ix in np.ndindex(a.shape):
            a[ix] = fn(*ix)
        return a

    def arange(self, lo, hi):
        return np.arange(int(lo), int(hi))

    def const(self, data, dt="f"):
        return np.array(data, dtype=KIND[dt])

    def assume(self, *ts):
        for t in ts:
            if not t:
                raise Discard()

    def assume_all(self, a, fn):
        """repair an array input so that fn holds, by resampling offending cells"""
        for ix in np.ndindex(a.shape):
            if not fn(a[ix].item(), *ix):
                raise Discard()

    def use_at(self, *ix):
        pass

    # ---------------------------------------------------------------- code
    def module(self, mod):
        return importlib.import_module("pyDeltaRCM." + mod)

    def fn(self, mod, name):
        o = self.module(mod)
        for p in name.split("."):
            if not hasattr(o, p):
                raise Skip("%s.%s not found" % (mod, name))
            o = getattr(o, p)
        return o

    def new(self, cls, **attrs):
        o = object.__new__(cls)
        o.__dict__.update(attrs)
        self.made.append(o)
        return o

    def base(self):
        b = base_model()
        m = object.__new__(type(b))
        for k, v in b.__dict__.items():
            m.__dict__[k] = v.copy() if isinstance(v, (np.ndarray, dict)) else v
        self.made.append(m)
        self.given[id(m)] = set()
        return m

    def set(self, o, **attrs):
        o.__dict__.update(attrs)
        if id(o) in self.given:
            self.given[id(o)].update(attrs)

    def _fit(self):
        """attributes of a model which the contract says nothing about get the grid size of those it gives"""
        b = base_model()
        full = b.eta.shape
        for m in self.made:
            g = self.given.get(id(m))
            if not g or "?fit" in g:
                continue
            g.add("?fit")  # once: later the code under contract has set them itself
            d, bd = m.__dict__, b.__dict__
            shp = next((d[k].shape for k in sorted(g) if isinstance(bd.get(k), np.ndarray) and bd[k].shape == full
                        and isinstance(d.get(k), np.ndarray) and d[k].ndim == 2), None)
            if shp is None and "L" in g and "W" in g:
                shp = (int(d["L"]), int(d["W"]))
            if shp is None or shp == full or min(shp) < 1:
                continue
            l, w = shp
            for k, v in bd.items():
                if k in g or k not in d or d[k] is not v and not isinstance(v, np.ndarray):
                    continue
                if isinstance(v, np.ndarray) and v.shape == full:
                    d[k] = np.resize(v, shp)
            new = dict(L=l, W=w, CTR=max(0, w // 2 - 1), L0=min(int(bd["L0"]), max(1, l // 4)))
            for k, v in new.items():
                if k not in g and k in d:
                    d[k] = v
            if "inlet" not in g and "inlet" in d:
                n = min(len(bd["inlet"]), w)
                d["inlet"] = np.arange(n) + (w - n) // 2
            if "x" not in g and "y" not in g:
                d["x"], d["y"] = np.meshgrid(np.arange(0, w), np.arange(0, l))

    def call(self, f, *a, **k):
        self._fit()
        try:
            return f(*a, **k)
        except (Violation, Discard, Skip):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if isinstance(e, TypeError) and tb[-1].filename == __file__:
                raise Skip("signature changed: %s" % e)
            self._missing(e)
            raise Violation("no-exception", "%s: %s at %s" % (type(e).__name__, e, tb[-1].name))

    def _missing(self, e):
        """an attribute the contract did not give the object it built: nothing is decided"""
        if isinstance(e, AttributeError) and any(e.obj is o for o in self.made):
            raise Skip("attribute not known to the contract: %s" % e)

    def attempt(self, f, *a, **k):
        self._fit()
        try:
            return f(*a, **k), None
        except (Violation, Discard, Skip):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if isinstance(e, TypeError) and tb[-1].filename == __file__:
                raise Skip("signature changed: %s" % e)
            self._missing(e)
            return None, e

    def _holders(self, name):
        for mn, mod in list(sys.modules.items()):
            if mod is None or not (mn == "pyDeltaRCM" or mn.startswith("pyDeltaRCM.")):
                continue
            if name in mod.__dict__:
                yield mod
            for v in list(mod.__dict__.values()):
                if isinstance(v, type) and getattr(v, "__module__", "").startswith("pyDeltaRCM") and name in v.__dict__:
                    yield v

    def _patch(self, name, wrapper):
        found, seen = False, []
        for h in list(self._holders(name)):
            if any(h is x for x in seen):
                continue
            seen.append(h)
            old = h.__dict__[name]
            w = wrapper(old)
            try:
                setattr(h, name, w)
            except (AttributeError, TypeError):
                continue
            self.undo.append((h, name, old))
            found = True
        return found

    def defined(self, name):
        self.module("preprocessor")
        return any(True for _ in self._holders(name))

    def stub(self, name, fn):
        if not self.defined(name):
            raise Skip("no function %s" % name)
        self._patch(name, lambda old: (lambda *a, **k: fn(*a, **k)))

    def contract(self, name, fn):
        """(deductive only)"""

    def after(self, name, fn):
        def mk(old):
            f = old.__func__ if isinstance(old, (staticmethod, classmethod)) else old

            def w(*a, **k):
                r = f(*a, **k)
                fn(r, a, k)
                return r
            return w
        self._patch(name, mk)

    def before(self, name, fn):
        def mk(old):
            def w(*a, **k):
                fn(a, k)
                return old(*a, **k)
            return w
        self._patch(name, mk)

    def patch(self, obj, name, value):
        old = obj.__dict__.get(name, _MISSING) if hasattr(obj, "__dict__") else getattr(obj, name)
        self.undo.append((obj, name, old))
        setattr(obj, name, value)

    def close(self):
        for h, n, old in reversed(self.undo):
            if old is _MISSING:
                delattr(h, n)
            else:
                setattr(h, n, old)
        self.undo = []
        for d in self.opened:
            try:
                d.close()
            except Exception:
                pass
        self.opened = []
        for d in self.scratchdirs:
            shutil.rmtree(d, ignore_errors=True)
        self.scratchdirs = []

    def scratch(self):
        d = tempfile.mkdtemp(prefix="dvscr_")
        self.scratchdirs.append(d)
        return d

    def write_yaml(self, path, d):
        def show(v):
            if v is None:
                return "null"
            if isinstance(v, list):
                return "[" + ", ".join(show(x) for x in v) + "]"
            if isinstance(v, dict):
                return "{" + ", ".join("%s: %s" % (k, show(x)) for k, x in v.items()) + "}"
            return str(v) if not isinstance(v, bool) else str(v).lower()
        with open(path, "w") as f:
            for k, v in d.items():
                f.write("%s: %s\n" % (k, show(v)))

    def dataset(self, path, mode="r"):
        import netCDF4
        if mode == "r":
            # read what is on disk, also while a writer has the file open
            cp = os.path.join(self.scratch(), "copy.nc")
            shutil.copyfile(path, cp)
            path = cp
        ds = netCDF4.Dataset(path, mode)
        self.opened.append(ds)
        return ds

    def ncat(self, v, *ix):
        if len(ix) != v.ndim:
            raise Violation("shape", "rank of variable %s" % v.name)
        if any(not (0 <= int(i) < n) for i, n in zip(ix, v.shape)):
            raise Violation("shape", "index %s outside shape %s of %s" % (ix, v.shape, v.name))
        r = v[tuple(int(i) for i in ix)] if ix else v[...]
        return np.ma.filled(r, np.nan).item() if np.ma.is_masked(r) else np.asarray(r).item()

    def rng_state(self, v=None):
        from numba import _helperlib as hl
        p = hl.rnd_get_np_state_ptr()
        if v is not None:
            hl.rnd_set_state(p, v)
        return hl.rnd_get_state(p)

    # ---------------------------------------------------------------- observation
    def snap(self, a):
        if not isinstance(a, np.ndarray):
            return a
        b = a.copy()
        return lambda *ix: b[tuple(int(i) for i in ix)].item()

    def at(self, a, *ix):
        if isinstance(a, np.ndarray):
            if len(ix) != a.ndim:
                raise Violation("shape", "rank of observed array")
            if any(not (0 <= int(i) < n) for i, n in zip(ix, a.shape)):
                raise Violation("shape", "index %s outside shape %s" % (ix, a.shape))
            return a[tuple(int(i) for i in ix)].item()
        if callable(a):
            return a(*ix)
        for i in ix:
            a = a[i]
        return a

    def shape(self, a):
        return tuple(a.shape)

    def elems(self, a):
        return [x.item() if hasattr(x, "item") else x for x in (a.ravel() if isinstance(a, np.ndarray) else a)]

    def same_array(self, a, b):
        return a is b or (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b))

    # ---------------------------------------------------------------- logic
    def And(self, *xs):
        return all(bool(x() if callable(x) else x) for x in xs)

    def Or(self, *xs):
        return any(bool(x() if callable(x) else x) for x in xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        if not a:
            return True
        return bool(b() if callable(b) else b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b, tol=None):
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)) or \
                (isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer))):
            return a == b
        a, b = float(a), float(b)
        if a == b:
            return True
        if a != a or b != b:
            return False
        return abs(a - b) <= (tol or ATOL) + RTOL * max(abs(a), abs(b))

    def ne0(self, a):
        """exactly nonzero"""
        return a != 0

    def ne(self, a, b):
        return not self.eq(a, b)

    def le(self, a, b, tol=None):
        return a <= b or self.eq(a, b, tol)

    def le0(self, a, b):
        """exact comparison (no tolerance), for use in conditions"""
        return a <= b

    def lt(self, a, b):
        return a < b or (not isinstance(a, (int, bool)) and self.eq(a, b))

    def max(self, a, b):
        return a if a >= b else b

    def min(self, a, b):
        return a if a <= b else b

    def sqrt(self, a):
        return math.sqrt(a)

    def pow(self, a, b):
        return float(a) ** float(b)

    def abs(self, a):
        return abs(a)

    def floor(self, a):
        return math.floor(a)

    def rint(self, a):
        return round(a)

    def idiv(self, a, b):
        return a // b

    def sum(self, xs):
        return math.fsum(float(x) for x in xs)

    def num(self, b):
        return 1 if b else 0

    def case(self, t):
        return bool(t)

    def clear(self, a, b):
        if a != b and self.eq(a, b):
            raise Discard()

    def entails(self, t):
        return bool(t)

    # ---------------------------------------------------------------- obligations
    def prove(self, name, t, kind="post", level=3):
        self.nchecks += 1
        if callable(t):
            t = t()
        if not t:
            raise Violation(name)
        return True

    def lemma(self, name, t, kind="lemma", level=3):
        return True

    def forall(self, name, shape, fn, when=None, kind="post"):
        for ix in itertools.product(*[range(int(s)) for s in shape]):
            if when is not None and not when(*ix):
                continue
            r = fn(*ix)
            if r is None:
                continue
            for k, v in (r.items() if isinstance(r, dict) else [(None, r)]):
                self.nchecks += 1
                if not v:
                    raise Violation(name + ("." + k if k else ""), "at index %s" % (ix,))

    def fail(self, name, detail=""):
        raise Violation(name, detail)

    def unreachable(self, name):
        raise Violation(name)

    def contains(self, name, a, lo, hi, at=None):
        have = set(int(x) for x in a)
        self.prove(name, all(v in have for v in range(int(lo), int(hi))))

    def FA(self, shape, fn, on=None):
        return None

    def warnings(self):
        return self._warn

    def trust(self, text):
        pass


_MISSING = object()


def one_sample(goal, seed, hints=None):
    """run one sample; returns (status, name, detail, inputs, nchecks)"""
    rng = random.Random("%s/%s" % (goal.key, seed))
    np.random.seed(abs(hash_str("%s/%s" % (goal.key, seed))) % (2 ** 31))
    c = ConC(rng, goal, hints)

    def onalarm(*a):
        raise Timeout()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(300 if getattr(goal, "jit", False) else 60)
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            c._warn = w
            with np.errstate(all="ignore"):
                goal.fn(c)
        return "ok", "", "", c.inputs, c.nchecks
    except Discard:
        return "discard", "", "", c.inputs, c.nchecks
    except Skip as e:
        return "skip", "", str(e), c.inputs, c.nchecks
    except Violation as e:
        return "violation", e.name, e.detail, c.inputs, c.nchecks
    except Timeout:
        return "violation", "terminates", "no result within the time limit", c.inputs, c.nchecks
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return "error", "", "%s: %s %s" % (type(e).__name__, e, [(f.filename.rsplit("/", 1)[-1], f.lineno) for f in tb[-5:]]), \
            c.inputs, c.nchecks
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        c.close()


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


def run_goal(goal, n, budget, seed0=0, hints=()):
    out = dict(key=goal.key, status="ok", n=0, checks=0, name="", detail="", inputs=None, seed=None, note="")
    t0 = time.time()
    disc = 0
    errs = 0
    todo = [("hint%d" % i, h) for i, h in enumerate(hints)]
    i = 0
    while True:
        if todo:
            sd, h = todo.pop(0)
        else:
            if out["n"] >= n or disc > 50 * n + 500 or (time.time() - t0 > budget):
                break
            sd, h = "%d.%d" % (seed0, i), None
            i += 1
        st, name, detail, inputs, nch = one_sample(goal, sd, h)
        out["checks"] += nch
        if st == "discard":
            disc += 1
        elif st == "ok":
            out["n"] += 1
        elif st == "skip":
            out.update(status="skip", note=detail)
            break
        elif st == "violation":
            # a violation counts only if it is reproducible
            st2, name2, detail2, inputs2, _ = one_sample(goal, sd, h)
            if st2 == "violation":
                out.update(status="violation", name=name, detail=detail, inputs=jsonable(inputs), seed=sd, hints=h)
                break
        else:
            errs += 1
            out.update(note=detail)
            if errs > 3:
                out.update(status="error", note=detail)
                break
    out["discarded"] = disc
    out["time"] = round(time.time() - t0, 3)
    if out["status"] == "ok" and out["n"] == 0:
        out["status"] = "vacuous" if not errs else "error"
    return out


def _inside(p):
    if isinstance(p, int):
        return True
    p = os.path.realpath(os.fsdecode(p))
    return p.startswith(os.path.realpath(tempfile.gettempdir()) + os.sep) or "__pycache__" in p or "numba" in p


def _audit(ev, args):
    """keep deletions by the code under test inside the scratch area"""
    if ev in ("os.remove", "os.rmdir", "shutil.rmtree") and not _inside(args[0]):
        raise PermissionError("contained: %s" % ev)
    if ev == "os.rename" and not (_inside(args[0]) and _inside(args[1])):
        raise PermissionError("contained: %s" % ev)


def main():
    """stdin: JSON list of jobs; stdout: JSON results, one per line"""
    from . import spec
    job = json.load(sys.stdin)
    tempfile.gettempdir()
    sys.addaudithook(_audit)
    spec.load_all()
    try:
        for j in job:
            g = spec.GOALS[j["key"]]
            r = run_goal(g, j["n"], j["budget"], j.get("seed0", 0), j.get("hints", ()))
            print("@@" + json.dumps(r), flush=True)
    finally:
        cleanup()


if __name__ == "__main__":
    main()
