"""Execution context: path conditions, decisions, obligations, symbolic scalars."""
import math
import time
from fractions import Fraction

from . import terms as T
from . import solver as S
from .terms import Unsupported


class PathEnd(BaseException):
    """this path is finished (infeasible, or end of an arbitrary iteration)"""


class Restart(BaseException):
    """frame / invariant set changed: re-run the goal from scratch"""


class Budget(BaseException):
    pass


class Obligation:
    __slots__ = ("name", "status", "by", "n", "model", "detail", "kind", "time")

    def __init__(self, name):
        self.name, self.status, self.by, self.n = name, "proved", set(), 0
        self.model = None
        self.detail = ""
        self.kind = "post"
        self.time = 0.0


class Ctx:
    cur = None

    def __init__(self, deadline=None, exact=True):
        self.prover = S.Prover()
        self.obligations = {}
        self.deadline = deadline
        self.loopinfo = {}  # persistent Houdini / frame state
        self.max_paths = 4000
        self.paths = 0
        self.complete_paths = 0
        self.restarts = 0
        self.assumptions = set()
        self.functions = set()
        self.notes = []
        self.models = []
        self.unattached = set()
        self.dropped_specs = set()
        self.contract_calls = {}
        self.attached_cids = set()
        self.exact = exact
        self.reset_path([])

    # ------------------------------------------------------------ path state
    def reset_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.facts = []
        self.factset = set()
        self.foralls = []
        self._fids = []
        self._simpn = None
        self.arity = {}
        self.index_terms = []
        self.counters = {}
        self.arrays_by_shape = {}
        self.loopstack = []
        self.calldepth = 0
        self.callstack = []
        self.serial = 0
        self.havocs = 0
        self.loose = set()
        self.hv_names = []
        self.objs = {}
        self.bufs = {}
        self.looporder = 0
        self.need_restart = False
        self.restart_from = 10**9
        self.inputs = {}
        self.path_obs = []
        self.covered = False
        self.state = {}
        self.dead = False

    def fresh_name(self, base):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return "%s!%d" % (base, n) if n else base

    def fresh(self, base, sort):
        return T.var(self.fresh_name(base), sort)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget of this goal exhausted")

    # ------------------------------------------------------------ facts
    def assume(self, t):
        t = as_term(t)
        if t.op == "bc":
            if not t.args[0]:
                raise PathEnd()
            return
        parts = t.args if t.op == "and" else (t,)
        for p in parts:
            if T.not_(p).id in self.factset:
                raise PathEnd()
            if p.id not in self.factset:
                self.factset.add(p.id)
                self.facts.append(p)

    def forall_app(self, names, fn, arity=1):
        self.foralls.append((("app", names), fn))
        self.arity[len(self.foralls) - 1] = arity

    def fids(self):
        """content identity of the universal facts (for the proof cache)"""
        f = self._fids
        while len(f) < len(self.foralls):
            i = len(f)
            spec, fn = self.foralls[i]
            n = self.arity.get(i, 1) if spec[0] == "app" else spec[2]
            f.append(None)
            t = fn(*[T.var("$fp%d" % j, "I") for j in range(n)])
            f[i] = (spec[1] if spec[0] in ("app", "prefix") else None, t.id)
        return tuple(f)

    def forall_prefix(self, name, n, fn):
        self.foralls.append((("prefix", name, n), fn))

    def forall_shape(self, shape, fn):
        key = shape_key(shape)
        self.foralls.append((("shape", lambda: self.arrays_by_shape.get(key, ()), len(shape)), fn))

    def register_array(self, name, shape):
        self.arrays_by_shape.setdefault(shape_key(shape), []).append(name)

    def simp(self, t):
        """simplify under the facts of the path (propositional matching)"""
        n = len(self.facts)
        if getattr(self, "_simpn", None) != (n, self.pos, len(self.factset)):
            m = {}
            for f in self.facts:
                m[f.id] = T.TRUE
                nf = T.not_(f)
                m[nf.id] = T.FALSE
            self._simpm, self._simpmemo, self._simpn = m, {}, (n, self.pos, len(self.factset))
        return T.subst(t, self._simpm, self._simpmemo)

    # ------------------------------------------------------------ solving
    def entails(self, t, level=1):
        t = as_term(t)
        if t.op == "bc":
            return t.args[0]
        if t.id in self.factset:
            return True
        if T.not_(t).id in self.factset:
            return False
        self.tick()
        if self.__dict__.get("_entailing", 0) > 2:  # asked again from inside a lemma instantiation
            return False
        self._entailing = self.__dict__.get("_entailing", 0) + 1
        try:
            r = self.prover.refute(self.facts, self.foralls, self.index_terms, t, level=level, fids=self.fids())
        finally:
            self._entailing -= 1
        return r.status == "proved"

    def decide(self, t):
        """branch on a symbolic boolean"""
        if t.op == "bc":
            return t.args[0]
        if t.id in self.factset:
            return True
        nt = T.not_(t)
        if nt.id in self.factset:
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            self.tick()
            can_t = not self.entails(nt, 0)
            can_f = not self.entails(t, 0)
            if can_t and can_f:
                self.pending.append(self.trace + [False])
                d = True
            elif can_t:
                d = True
            elif can_f:
                d = False
            else:
                raise PathEnd()
        self.pos += 1
        self.trace.append(d)
        self.assume(t if d else nt)
        return d

    def choose(self, n):
        """nondeterministic choice recorded in the decision vector"""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            for k in range(n - 1, 0, -1):
                self.pending.append(self.trace + [k])
            d = 0
        self.pos += 1
        self.trace.append(d)
        return d

    def prove(self, name, t, kind="post", level=3, detail=""):
        t = as_term(t)
        if self.dead:
            return
        t0 = time.time()
        st = self.simp(t)
        if st.op == "bc" and st.args[0]:
            parts = (t,) if t.id in self.factset else (T.TRUE,)
        else:
            parts = st.args if st.op == "and" else (st,)
        status, by, bad = "proved", set(), None
        for p in parts:
            self.tick()
            r = self.prover.refute(self.facts, self.foralls, self.index_terms, p, level=level, fids=self.fids())
            by.add(r.by)
            if r.status != "proved":
                status = "refuted" if r.status in ("refuted", "sat?") and self.firm(p) else "unknown"
                bad = p
                if status == "refuted" and len(self.models) < 4:
                    self.extract(p)
                break
        self.path_obs.append((name, status, by, bad, kind, time.time() - t0, detail,
                              list(self.trace)))
        if status != "proved":
            if getattr(self, "on_fail", None):
                self.on_fail(name, bad)
            # continue as if it held, to localise the failure
            try:
                self.assume(t)
            except PathEnd:
                raise
        else:
            try:
                self.assume(t)
            except PathEnd:
                # proved something contradictory to facts => path infeasible
                raise
        return status == "proved"

    def firm(self, goal):
        """does a countermodel of the goal on this path count as a refutation?  Not if it may hinge on a loop
        without a given invariant or on powers (axiomatised incompletely)"""
        for t in T.walk([goal]):
            if t.op == "pow":
                return False
        if self.loose:
            for t in T.walk(self.facts + [goal]):
                if t.op in ("var", "app") and t.args[0] in self.loose:
                    return False
        return True

    def extract(self, goal):
        """concrete inputs from the solver's counterexample (best effort)"""
        try:
            from .arrays import Arr
            bounds = []
            for v in self.inputs.values():
                if isinstance(v, SV) and v.t.sort in "IR":
                    m = T.num(10 if v.t.sort == "I" else 64)
                    bounds.append(T.and_(T.le(v.t, m), T.le(T.neg(m), v.t)))
            for extra in (bounds, []):
                r = self.prover.refute(self.facts + extra, self.foralls, self.index_terms, goal, level=1, want_model=True)
                if r.status == "refuted" and r.model is not None and r.model is not True:
                    break
            else:
                return
            conv = self.prover.cl if r.by == "z3-linear" else self.prover.ce
            out = {}
            for n, v in self.inputs.items():
                if isinstance(v, SV):
                    out[n] = S.evalmodel(r.model, conv, v.t)
                elif isinstance(v, Arr) and v.uf:
                    out[n] = {"cells": S.evalapps(r.model, conv, v.uf)}
                elif isinstance(v, (int, float, bool)):
                    out[n] = v
            self.models.append(out)
        except Exception:
            pass

    def commit_path(self):
        for name, status, by, bad, kind, dt, detail, trace in self.path_obs:
            o = self.obligations.get(name)
            if o is None:
                o = self.obligations[name] = Obligation(name)
                o.kind = kind
            o.n += 1
            o.time += dt
            o.by |= by
            rank = {"proved": 0, "unknown": 1, "refuted": 2}
            if rank[status] > rank[o.status]:
                o.status = status
                o.detail = (detail + " " if detail else "") + T.show(bad)[:2000]
                o.model = (trace, bad)

    # ------------------------------------------------------------ exploration
    def explore(self, goal):
        while True:
            self.obligations = {}
            self.paths = self.complete_paths = 0
            self.pending = [[]]
            try:
                while self.pending:
                    self.tick()
                    if self.paths > self.max_paths:
                        raise Budget("path limit")
                    pre = self.pending.pop()
                    self.reset_path(pre)
                    Ctx.cur = self
                    self.paths += 1
                    try:
                        goal(self)
                        self.complete_paths += 1
                    except PathEnd:
                        pass
                    except Unsupported:
                        if not self.need_restart:
                            raise
                    if self.need_restart:
                        raise Restart()
                    self.commit_path()
                return
            except Restart:
                self.restarts += 1
                rf = self.restart_from
                for k in [k for k, v in self.loopinfo.items() if v.order > rf and k[2][:0] == ()]:
                    if self.loopinfo[k].order > rf:
                        del self.loopinfo[k]
                self.unattached, self.dropped_specs, self.attached_cids = set(), set(), set()
                if self.restarts > 400:
                    raise Budget("restart limit")
                continue


def shape_key(shape):
    return tuple(s.id for s in shape)


def ctx():
    return Ctx.cur


# ---------------------------------------------------------------- scalars


def is_inf(v):
    return isinstance(v, float) and math.isinf(v)


class SV:
    """symbolic scalar"""

    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SV<%s>" % T.show(self.t)[:200]

    # arithmetic
    def _b(self, o, f):
        if isinstance(o, (SV, int, float, Fraction)):
            return wrap(f(self.t, lift(o)))
        return NotImplemented

    def _rb(self, o, f):
        if isinstance(o, (SV, int, float, Fraction)):
            return wrap(f(lift(o), self.t))
        return NotImplemented

    def __add__(self, o):
        if is_inf(o):
            return o
        return self._b(o, T.add)

    def __radd__(self, o):
        if is_inf(o):
            return o
        return self._rb(o, T.add)

    def __sub__(self, o):
        return self._b(o, T.sub)

    def __rsub__(self, o):
        return self._rb(o, T.sub)

    def __mul__(self, o):
        return self._b(o, T.mul)

    def __rmul__(self, o):
        return self._rb(o, T.mul)

    def __truediv__(self, o):
        if isinstance(o, (SV, int, float, Fraction)):
            check_den(lift(o))
        return self._b(o, T.div)

    def __rtruediv__(self, o):
        check_den(self.t)
        return self._rb(o, T.div)

    def __floordiv__(self, o):
        return self._b(o, floordiv)

    def __rfloordiv__(self, o):
        return self._rb(o, floordiv)

    def __mod__(self, o):
        return self._b(o, mod)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._rb(o, mod)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o):
        return self._b(o, T.power)

    def __rpow__(self, o):
        return self._rb(o, T.power)

    def __neg__(self):
        return wrap(T.neg(T.as_num(self.t)))

    def __pos__(self):
        return self

    def __abs__(self):
        a = T.as_num(self.t)
        return wrap(T.ite(T.lt(a, T.num(0)), T.neg(a), a))

    def __invert__(self):
        if self.t.sort == "B":
            return wrap(T.not_(self.t))
        return wrap(T.sub(T.neg(self.t), T.num(1)))

    def _bool(self, o, f):
        a, b = self.t, lift(o)
        if a.sort == "B" and b.sort == "B":
            return wrap(f(a, b))
        raise Unsupported("bitwise operation on integers")

    def __and__(self, o):
        return self._bool(o, T.and_)

    __rand__ = __and__

    def __or__(self, o):
        return self._bool(o, T.or_)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bool(o, lambda a, b: T.not_(T.iff(a, b)))

    __rxor__ = __xor__

    # comparisons
    def __lt__(self, o):
        if is_inf(o):
            return o > 0
        return self._b(o, lambda a, b: T.lt(T.as_num(a), T.as_num(b)))

    def __le__(self, o):
        if is_inf(o):
            return o > 0
        return self._b(o, lambda a, b: T.le(T.as_num(a), T.as_num(b)))

    def __gt__(self, o):
        if is_inf(o):
            return o < 0
        return self._b(o, lambda a, b: T.lt(T.as_num(b), T.as_num(a)))

    def __ge__(self, o):
        if is_inf(o):
            return o < 0
        return self._b(o, lambda a, b: T.le(T.as_num(b), T.as_num(a)))

    def __eq__(self, o):
        if is_inf(o):
            return False
        if isinstance(o, (SV, int, float, Fraction)):
            a, b = self.t, lift(o)
            if a.sort != b.sort and "B" in (a.sort, b.sort):
                a, b = T.as_num(a), T.as_num(b)
            return wrap(T.eq(a, b))
        if o is None or isinstance(o, str):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(("SV", self.t.id))

    def __bool__(self):
        t = self.t
        if t.sort != "B":
            t = T.not_(T.eq(t, T.num(0)))
        return ctx().decide(t)

    def __index__(self):
        raise Unsupported("symbolic value used as a concrete index")

    def __int__(self):
        raise Unsupported("int() of symbolic value through native code")

    def __float__(self):
        raise Unsupported("float() of symbolic value through native code")

    def __round__(self, nd=None):
        if nd is None:
            return wrap(T.round_half_even(self.t))
        if isinstance(nd, int):
            k = T.num(Fraction(10) ** nd)
            return wrap(T.div(T.tosort(T.round_half_even(T.mul(T.tosort(self.t, "R"), k)), "R"), k))
        raise Unsupported("round with digits")

    def __floor__(self):
        return wrap(T.floor_(self.t))

    def __ceil__(self):
        return wrap(T.neg(T.floor_(T.neg(T.as_num(self.t)))))

    def __trunc__(self):
        return wrap(T.trunc(self.t))

    def __str__(self):
        io = Ctx.cur.state.get("io") if Ctx.cur is not None else None
        if io is not None:
            return io.token(self)
        return "<sym %s>" % T.show(self.t)[:80]

    def __format__(self, spec):
        return str(self)

    # numpy-scalar like
    def astype(self, dt):
        return cast(self, dt)

    def item(self):
        return self

    def any(self):
        return self if self.t.sort == "B" else self != 0

    def all(self):
        return self if self.t.sort == "B" else self != 0

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def copy(self):
        return self


def lift(v):
    if isinstance(v, SV):
        return v.t
    if isinstance(v, T.T):
        return v
    if isinstance(v, bool):
        return T.boolc(v)
    if isinstance(v, int):
        return T.num(v, "I")
    if isinstance(v, (float, Fraction)):
        return T.num(v, "R")
    if hasattr(v, "item") and not hasattr(v, "buf"):
        return lift(v.item())
    raise Unsupported("cannot lift %r" % type(v))


def as_term(v):
    t = lift(v)
    return t


def wrap(t):
    if t.op == "bc":
        return t.args[0]
    c = T.constval(t) if t.sort != "B" else None
    if c is not None:
        if t.sort == "I":
            return int(c)
        return c
    return SV(t)


def check_den(t):
    pass


def cast(v, kind):
    """kind: 'i','f','b'"""
    t = lift(v)
    if kind == "b":
        return wrap(t if t.sort == "B" else T.not_(T.eq(t, T.num(0))))
    if kind == "i":
        return wrap(T.tosort(T.trunc(t), "I"))
    return wrap(T.tosort(T.as_num(t), "R"))


def split_linear(a, w):
    """write integer polynomial a as q*w + r with r not containing w as factor"""
    if w.op == "poly" and T.constval(w) is None and len(w.args) != 1:
        # multi-term divisor: try to substitute as opaque only for exact match
        return None
    cw = T.constval(w)
    if cw is not None:
        qd, rd = {}, {}
        for m, c in T.pdict(a).items():
            if m and (c / cw).denominator == 1:
                qd[m] = c / cw
            else:
                rd[m] = c
        return T.frompoly(qd, "I"), T.frompoly(rd, "I")
    mono = None
    for m, c in T.pdict(w).items():
        mono, cc = m, c
    if cc != 1:
        return None
    qd, rd = {}, {}
    for m, c in T.pdict(a).items():
        l = list(m)
        ok = True
        for x in mono:
            if x in l:
                l.remove(x)
            else:
                ok = False
                break
        if ok:
            qd[tuple(l)] = c
        else:
            rd[m] = c
    return T.frompoly(qd, "I"), T.frompoly(rd, "I")


def floordiv(a, b):
    a, b = T.as_num(a), T.as_num(b)
    if a.sort == "I" and b.sort == "I":
        sp = split_linear(a, b)
        if sp is not None:
            q, r = sp
            if T.constval(q) != 0 or T.constval(b) is None:
                zero = T.num(0)
                if ctx().entails(T.and_(T.le(zero, r), T.lt(r, b)), 0 if T.constval(q) == 0 else 1):
                    return q
                # r in [-b,0) or [b,2b)
                if ctx().entails(T.and_(T.le(T.neg(b), r), T.lt(r, zero)), 0):
                    return T.sub(q, T.num(1))
        return T.idiv(a, b)
    return T.tosort(T.floor_(T.div(a, b)), "R")


def mod(a, b):
    a, b = T.as_num(a), T.as_num(b)
    q = floordiv(a, b)
    return T.sub(a, T.mul(b, q))
