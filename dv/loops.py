"""Loop rule: havoc the frame, assume the surviving invariant candidates, run one
arbitrary iteration, re-prove the candidates (Houdini).  The frame is found from
the writes the body actually performs."""
import ast
from fractions import Fraction

from . import terms as T
from .terms import Unsupported
from .core import SV, ctx, lift, wrap, PathEnd, Restart
from .arrays import Arr, Buf, uf_arr, ci, all_index, is_small, conv_dtype, new_arr, Sl
from . import npshim
from .interp import BREAK, CONTINUE, Ret, Unbound, assigned_names, Frame

ZERO, ONE = T.num(0), T.num(1)


def z():
    return T.num(0)


class IList(list):
    """list created by the program; becomes symbolic when grown in a cut loop"""

    def __init__(self, *a):
        list.__init__(self, *a)
        c = ctx()
        self.sym = None
        if c is not None:
            c.serial += 1
            self.serial = c.serial
            self.name = c.fresh_name("list")
            c.objs[self.name] = self
        else:
            self.serial, self.name = 0, None

    def _note(self):
        c = ctx()
        if c is not None:
            for l in c.loopstack:
                l.wrote_list(self)

    def append(self, v):
        self._note()
        if self.sym is None:
            list.append(self, v)
            return
        n, arr = self.sym
        t = lift(v)
        g = arr.getter()
        dt = arr.dt
        if dt == "i" and t.sort == "R":
            raise Unsupported("list element type changed")
        nt = n
        new = Arr(Buf((T.add(n, T.num(1)),), dt,
                      get=lambda ix: T.ite(T.eq(ix[0], nt), conv_dtype(t, dt), g(ix))))
        self.sym = (T.add(n, T.num(1)), new)

    def extend(self, vs):
        self._note()
        if self.sym is not None:
            raise Unsupported("extend of a symbolic list")
        list.extend(self, vs)

    def __setitem__(self, k, v):
        self._note()
        if self.sym is not None:
            raise Unsupported("store into a symbolic list")
        list.__setitem__(self, k, v)

    def pop(self, *a):
        self._note()
        if self.sym is not None:
            raise Unsupported("pop of a symbolic list")
        return list.pop(self, *a)

    def insert(self, *a):
        self._note()
        if self.sym is not None:
            raise Unsupported("insert into a symbolic list")
        return list.insert(self, *a)

    def remove(self, *a):
        self._note()
        if self.sym is not None:
            raise Unsupported("remove from a symbolic list")
        return list.remove(self, *a)

    def __getitem__(self, k):
        if self.sym is not None:
            return self.sym[1][k]
        return list.__getitem__(self, k)

    def __iter__(self):
        if self.sym is not None:
            raise Unsupported("native iteration over a symbolic list")
        return list.__iter__(self)

    def __len__(self):
        if self.sym is not None:
            raise Unsupported("native len of a symbolic list")
        return list.__len__(self)

    def dv_len(self):
        return wrap(self.sym[0]) if self.sym is not None else list.__len__(self)

    def dv_toarr(self, dt=None):
        if self.sym is not None:
            return npshim.asarr(self.sym[1], dt)
        return npshim.asarr(list(list.__iter__(self)), dt)

    def copy(self):
        return IList(list(self))


class SymIter:
    def __init__(self, n, elem, values=None):
        self.n, self.elem = n, elem


class SymRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = lift(start), lift(stop), step
        if step not in (1, -1):
            raise Unsupported("symbolic range step")

    def iter(self):
        n = T.sub(self.stop, self.start) if self.step == 1 else T.sub(self.start, self.stop)
        if not ctx().entails(T.le(z(), n), 1):
            n = T.max_(n, z())
        s, st = self.start, self.step
        return SymIter(n, lambda k: wrap(T.add(s, k) if st == 1 else T.sub(s, k)))

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic range")


class SymEnum:
    def __init__(self, it, start=0):
        self.it, self.start = it, start

    def __iter__(self):
        raise Unsupported("native iteration over symbolic enumerate")


class SymZip:
    def __init__(self, its):
        self.its = its

    def __iter__(self):
        raise Unsupported("native iteration over symbolic zip")


class SymComp:
    """[elt for i in range(n) for j in range(m)] with symbolic bounds"""

    def __init__(self, dims, term, names, dt):
        self.dims, self.term, self.names, self.dt = dims, term, names, dt

    def arr(self):
        t, names = self.term, self.names
        return new_arr(self.dims, self.dt, lambda ix: T.subst(t, {v.id: i for v, i in zip(names, ix)}))

    def dv_toarr(self, dt=None):
        a = self.arr()
        if len(self.dims) > 1:
            a = a.reshape(-1)
        return a if dt is None or a.dt == dt else a.astype(npshim.Kind(dt, dt))


def sym_comp(interp, e, fr):
    cf = Frame(fr.globals, fr, fr.func, set(), fr.cls, "comp")
    dims, names, syms = [], [], False
    c = ctx()
    if c is None or len(e.generators) > 2:
        return None
    if any(isinstance(g.iter, (ast.Constant,)) or g.ifs for g in e.generators):
        return None
    its = []
    for i, g in enumerate(e.generators):
        if i > 0 and not any(isinstance(x, ast.Call) for x in ast.walk(g.iter)):
            return None
        if i > 0 and its and its[0] is None:
            return None
        try:
            it = interp.ev(g.iter, fr)
        except NameError:
            return None
        s = sym_iter(it)
        its.append((s, it))
    if all(s is None for s, _ in its):
        return None
    for (s, it), g in zip(its, e.generators):
        if s is None:
            if not isinstance(it, range):
                return None
            s = SymRange(it.start, it.stop, it.step).iter()
        v = c.fresh("$c", "I")
        dims.append(s.n)
        names.append(v)
        c.assume(T.and_(T.le(z(), v), T.lt(v, s.n))) if False else None
        for n in ast.walk(g.target):
            if isinstance(n, ast.Name):
                cf.names.add(n.id)
        interp.assign(g.target, s.elem(v), cf)
    before = len(c.trace)
    val = interp.ev(e.elt, cf)
    if len(c.trace) != before:
        raise Unsupported("branching inside a symbolic comprehension")
    t = lift(val)
    return SymComp(tuple(dims), t, names, {"R": "f", "I": "i", "B": "b"}[t.sort])


def sym_iter(it):
    """SymIter for symbolic iterables, None for concrete ones"""
    if isinstance(it, SymIter):
        return it
    if isinstance(it, SymRange):
        return it.iter()
    if isinstance(it, IList) and it.sym is not None:
        a = it.sym[1]
        g = a.getter()
        return SymIter(it.sym[0], lambda k: wrap(g((k,))))
    if isinstance(it, SymComp):
        it = it.dv_toarr()
    if isinstance(it, Arr):
        if ci(it._shape[0]) is not None:
            return None
        n = it._shape[0]
        if hasattr(it, "is_range"):
            s = it.is_range[0]
            return SymIter(n, lambda k: wrap(T.add(s, k)))
        if it.ndim == 1:
            return SymIter(n, lambda k: wrap(it.get((k,))))
        return SymIter(n, lambda k: it[wrap(k)])
    if isinstance(it, npshim.NdEnum):
        a = it.a
        if a.ndim == 1:
            return SymIter(a._shape[0], lambda k: ((wrap(k),), wrap(a.get((k,)))))
        if a.ndim == 2:
            from .core import floordiv
            n = T.mul(a._shape[0], a._shape[1])

            def el(k):
                i = floordiv(k, a._shape[1])
                j = T.sub(k, T.mul(i, a._shape[1]))
                return ((wrap(i), wrap(j)), wrap(a.get((i, j))))
            return SymIter(n, el)
    if isinstance(it, SymEnum):
        s = sym_iter(it.it)
        st = lift(it.start)
        return SymIter(s.n, lambda k: (wrap(T.add(k, st)), s.elem(k)))
    if isinstance(it, SymZip):
        ss = []
        for x in it.its:
            s = sym_iter(x)
            if s is None:
                a = npshim.asarr(list(x))
                s = SymIter(a._shape[0], lambda k, a=a: wrap(a.get((k,))) if a.ndim == 1 else a[wrap(k)])
            ss.append(s)
        n = ss[0].n
        for s in ss[1:]:
            if s.n is not n and not ctx().entails(T.eq(s.n, n), 1):
                n = T.min_(n, s.n)
        return SymIter(n, lambda k: tuple(s.elem(k) for s in ss))
    return None


class Info:
    def __init__(self):
        self.attrs = []
        self.bufs = []
        self.lists = []
        self.dropped = set()
        self.sorts = {}
        self.symdims = set()
        self.order = 0
        self.known = set()


class Loop:
    def __init__(self, key, info, fr, names):
        self.key, self.info, self.fr, self.names = key, info, fr, names
        c = ctx()
        self.serial = c.serial
        self.k = None
        self.n = None
        self.entry = {}
        self.entry_vals = {}
        self.entry_arr = {}
        self.fresh_of = {}

    # ------------------------------------------------ frame discovery
    def _dirty(self):
        c = ctx()
        c.need_restart = True
        # frames of loops entered later on this path may be named differently now
        c.restart_from = min(getattr(c, "restart_from", 10**9), self.info.order)

    def wrote_buf(self, buf):
        if buf.serial > self.serial:
            for o in getattr(buf, "origins", ()):
                self.wrote_buf(o)
            return
        if buf.name not in self.info.bufs:
            self.info.bufs.append(buf.name)
            self._dirty()
        for o in getattr(buf, "origins", ()):
            self.wrote_buf(o)

    def wrote_attr(self, o, a):
        s = name_object(o)
        if s > self.serial:
            return
        key = (o.__dict__["__dv_name__"], a)
        if key not in self.info.attrs:
            self.info.attrs.append(key)
            self._dirty()

    def wrote_list(self, l):
        if l.serial > self.serial:
            return
        if l.name not in self.info.lists:
            self.info.lists.append(l.name)
            self._dirty()

    def wrote_container(self, o):
        if isinstance(o, IList):
            return self.wrote_list(o)
        raise Unsupported("container modified in a symbolic loop")


def name_object(o):
    d = o.__dict__
    if "__dv_serial__" not in d:
        c = ctx()
        c.serial += 1
        d["__dv_serial__"] = c.serial
        d["__dv_name__"] = c.fresh_name("obj")
        c.objs[d["__dv_name__"]] = o
    return d["__dv_serial__"]


class Env:
    """what a loop contract may talk about"""

    def __init__(self, loop, k):
        self.loop, self.k = loop, k

    def __getitem__(self, name):
        """current value of a local or of 'self.attr'"""
        return self._val(name, False)

    def entry(self, name):
        return self.loop.entry_vals.get(name)

    def _val(self, name, entry):
        fr = self.loop.fr
        if "." in name:
            o, a = name.split(".", 1)
            return getattr(fr.locals[o], a)
        v = fr.locals[name]
        if isinstance(v, Unbound):
            raise KeyError(name)
        return v

    def entry_get(self, name):
        """entry contents of an array variable"""
        return self.loop.entry_arr[name]

    def has(self, name):
        try:
            self._val(name, False)
            return True
        except (KeyError, AttributeError):
            return False

    def counters(self):
        """locals assigned in the loop that are the integer 0 on entry"""
        r = []
        for n in self.loop.names:
            v = self.loop.entry_vals.get(n)
            if v is not None and not isinstance(v, bool) and str(v) in ("0", "T(0)"):
                r.append(n)
        return r

    @property
    def stack(self):
        """counters of the enclosing loops of this function, outermost first (this one last)"""
        return [l.k for l in self.loop.fr.loops] + [self.k]

    @property
    def depth(self):
        return len(self.loop.fr.loops) + 1


def stable_id(s, func):
    """position of a loop statement in its function, independent of lines"""
    i = 0
    for n in ast.walk(func.node if func is not None else ast.Module(body=[], type_ignores=[])):
        if isinstance(n, (ast.For, ast.While)):
            if n is s:
                return i
            i += 1
    return -1


def begin(interp, s, fr, targets):
    c = ctx()
    key = (fr.func.__qualname__ if fr.func else "?", stable_id(s, fr.func), tuple(c.trace), c.fresh_name("loopocc"))
    info = c.loopinfo.get(key)
    if info is None:
        info = c.loopinfo[key] = Info()
    c.looporder += 1
    info.order = c.looporder
    names, _, _ = assigned_names(s.body + s.orelse if False else s.body)
    if isinstance(s, ast.For):
        for n in ast.walk(s.target):
            if isinstance(n, ast.Name):
                names.add(n.id)
    names = sorted(n for n in names if n not in fr.globalnames)
    return Loop(key, info, fr, names)


class Slot:
    """a mutable place of the loop frame"""

    def __init__(self, sid, get, set_, kind, label):
        self.sid, self.get, self.set, self.kind, self.label = sid, get, set_, kind, label


def arr_labels(fr, buf):
    out = []
    for n, v in fr.locals.items():
        if isinstance(v, Arr) and v.buf is buf:
            out.append((n, v))
        elif hasattr(v, "__dict__") and "__dv_serial__" in getattr(v, "__dict__", {}):
            for a, w in v.__dict__.items():
                if isinstance(w, Arr) and w.buf is buf:
                    out.append((n + "." + a, w))
    return out


def collect(loop):
    c = ctx()
    fr = loop.fr
    slots = []
    loop.unbound = []
    for n in loop.names:
        if n in fr.locals and not isinstance(fr.locals[n], Unbound):
            v = fr.locals[n]
            slots.append(Slot("L:" + n, lambda n=n: fr.locals[n], lambda x, n=n: fr.locals.__setitem__(n, x), "v", n))
        else:
            loop.unbound.append(n)
    for oname, a in sorted(loop.info.attrs):
        o = c.objs.get(oname)
        if o is None:
            continue
        if not hasattr(o, a):
            continue
        lab = label_of(fr, o, a)
        slots.append(Slot("A:%s.%s" % (oname, a), lambda o=o, a=a: getattr(o, a),
                          lambda x, o=o, a=a: o.__dict__.__setitem__(a, x), "v", lab))
    for b in sorted(loop.info.bufs):
        buf = c.bufs.get(b)
        if buf is None:
            continue
        slots.append(Slot("B:" + b, lambda buf=buf: buf, None, "b", b))
    for l in sorted(loop.info.lists):
        o = c.objs.get(l)
        if o is None:
            continue
        slots.append(Slot("D:" + l, lambda o=o: o, None, "l", l))
    return slots


def label_of(fr, o, a):
    for n, v in fr.locals.items():
        if v is o:
            return n + "." + a
    return a


def scope_dims(fr):
    """symbolic dimensions of arrays in scope (upper bounds for index variables)"""
    out = []

    def addt(t):
        if ci(t) is None and t not in out and len(out) < 8:
            out.append(t)

    for v in list(fr.locals.values()):
        if isinstance(v, Arr):
            for d in v._shape:
                addt(d)
    for v in list(fr.locals.values()):
        if hasattr(v, "__dict__") and "__dv_serial__" in getattr(v, "__dict__", {}):
            for w in v.__dict__.values():
                if isinstance(w, Arr):
                    for d in w._shape:
                        addt(d)
    return out


def scalar_cands(sid, get, e0, dims, dense=False):
    out = []
    cur = lambda: lift(get())
    if e0.sort == "B":
        out.append((sid + "==entry", lambda k: T.iff(cur(), e0)))
        return out
    out.append((sid + "==entry", lambda k: T.eq(T.as_num(cur()), e0)))
    out.append((sid + ">=0", lambda k: T.le(z(), T.as_num(cur()))))
    if dense:
        return out
    out.append((sid + ">0", lambda k: T.lt(z(), T.as_num(cur()))))
    out.append((sid + ">=entry", lambda k: T.le(e0, T.as_num(cur()))))
    out.append((sid + "<=entry", lambda k: T.le(T.as_num(cur()), e0)))
    if e0.sort == "I":
        if True:
            out.append((sid + "==entry+k", lambda k: T.eq(T.as_num(cur()), T.add(e0, k)) if k is not None else T.FALSE))
        for d in dims:
            out.append((sid + "<" + T.show(d)[:60], lambda k, d=d: T.lt(T.as_num(cur()), d)))
    return out


class FA:
    """a universally quantified candidate over the cells of a buffer"""

    def __init__(self, shape, fn, on=None):
        self.shape, self.fn, self.on = shape, fn, on


def inr(ix, sh):
    return T.and_(*[T.and_(T.le(z(), i), T.lt(i, d)) for i, d in zip(ix, sh)])


def buf_cands(loop, sid, get, entry_get, shape, dt, dims):
    """get() -> current getter"""
    out = []
    if is_small(shape):
        for n, ix in enumerate(all_index(shape)):
            e0 = entry_get(ix)
            cur = lambda ix=ix: get()(ix)
            for c in scalar_cands("%s[%d]" % (sid, n), lambda cur=cur: cur(), e0, [], dense=True):
                out.append(c)
        return out

    def fa(name, pred):
        out.append((sid + name, lambda k: FA(shape, lambda ix: pred(k, ix), None)))

    fa(":same", lambda k, ix: T.eq(get()(ix), entry_get(ix)) if dt != "b" else T.iff(get()(ix), entry_get(ix)))
    if dt in "fi":
        fa(":>=0", lambda k, ix: T.le(z(), get()(ix)))
    fa(":rest", lambda k, ix: T.or_(T.lt(ix[0], k), T.eq(get()(ix), entry_get(ix)) if dt != "b" else
                                    T.iff(get()(ix), entry_get(ix))) if k is not None else T.FALSE)
    if dt == "i":
        for d in dims[:4]:
            fa(":<" + T.show(d)[:60], lambda k, ix, d=d: T.lt(get()(ix), d))
    return out


def gen_cands(interp, loop, slots):
    fr = loop.fr
    dims = scope_dims(fr)
    cands = []
    c = ctx()
    auto = all(sp.auto for sp in find_specs(interp, fr) if sp.cands(loop))
    loop.entry_vals = {}
    loop.entry_arr = {}
    loop.entry_buf = {b: c.bufs[b].snapshot() for b in loop.info.bufs if b in c.bufs}
    for n, v in list(fr.locals.items()):
        if isinstance(v, Unbound):
            continue
        if isinstance(v, Arr):
            loop.entry_arr[n] = v.getter()
        loop.entry_vals[n] = v
        if hasattr(v, "__dict__") and "__dv_serial__" in getattr(v, "__dict__", {}):
            for a, w in list(v.__dict__.items()):
                loop.entry_vals[n + "." + a] = w
                if isinstance(w, Arr):
                    loop.entry_arr[n + "." + a] = w.getter()
    for s in slots:
        if s.kind == "v":
            v = s.get()
            if isinstance(v, (SV, int, Fraction, bool)) or (isinstance(v, float)):
                try:
                    e0 = lift(v)
                except Unsupported:
                    continue
                srt = loop.info.sorts.get(s.sid)
                if srt == "R" and e0.sort == "I":
                    e0 = T.tosort(e0, "R")
                if auto:
                    cands += scalar_cands(s.sid, s.get, e0, dims)
            elif isinstance(v, Arr):
                eg = v.getter()
                for d in range(v.ndim):
                    e = v._shape[d]
                    cands.append(("%s.dim%d" % (s.sid, d), lambda k, s=s, d=d, e=e: T.eq(s.get()._shape[d], e)))
                    cands.append(("%s.dim%d>=" % (s.sid, d), lambda k, s=s, d=d, e=e: T.le(e, s.get()._shape[d])))
                if auto and not any((s.sid, d) in loop.info.symdims for d in range(v.ndim)):
                    cands += buf_cands(loop, s.sid, lambda s=s: s.get().getter(), eg, v._shape, v.dt, dims)
        elif s.kind == "b":
            b = s.get()
            if auto:
                cands += buf_cands(loop, s.sid, lambda b=b: b.snapshot(), b.snapshot(), b.shape, b.dt, dims)
            if b.total is not None:
                t0 = b.total
                cands.append((s.sid + ".total", lambda k, b=b, t0=t0: T.eq(b.total, t0) if b.total is not None else T.FALSE))
        elif s.kind == "l":
            o = s.get()
            n0 = lift(o.dv_len())
            cands.append((s.sid + ".len", lambda k, o=o, n0=n0: T.eq(lift(o.dv_len()), T.add(n0, k))))
            for nm, p in [(":>=0", lambda v: T.le(z(), v))] + [(":<" + T.show(d)[:60], lambda v, d=d: T.lt(v, d)) for d in dims]:
                cands.append((s.sid + nm, lambda k, o=o, p=p: list_fa(o, p)))
    # contract candidates
    specs = find_specs(interp, fr)
    env_fail = []
    loop.attached = {}
    for sp in specs:
        for cid, fn in sp.cands(loop):
            def safe(k, fn=fn):
                return fn(Env(loop, k))
            try:
                r = safe(T.num(0))
            except (KeyError, AttributeError, IndexError, TypeError):
                loop.attached[cid] = False
                c.unattached.add("%s/%s" % (loop.key[0], cid))
                continue
            if r is None:
                continue
            loop.attached[cid] = True
            c.attached_cids.add((sp.depth, cid))
            cands.append(("spec:" + cid, safe))
    return cands


def list_fa(o, p):
    if o.sym is None:
        ts = []
        for v in list.__iter__(o):
            if not isinstance(v, (SV, int, Fraction)):
                return T.FALSE
            ts.append(p(lift(v)))
        return T.and_(*ts) if ts else T.TRUE
    n, a = o.sym
    return FA((n,), lambda ix: p(a.get(ix)), None)


def find_specs(interp, fr):
    """loop contracts of the innermost active function that has some"""
    c = ctx()
    for f in reversed(c.callstack):
        if f.func is not None and f.func.__name__ in interp.loopspecs:
            return interp.loopspecs[f.func.__name__]
    return []


def check(term, level=2):
    """prove a candidate (term or FA)"""
    c = ctx()
    if isinstance(term, list):
        return all(check(t, level) for t in term)
    if isinstance(term, FA):
        sk = tuple(c.fresh("ski", "I") for _ in term.shape)
        save_i = len(c.index_terms)
        c.index_terms.append(sk)
        try:
            t = term.fn(sk)
            return c.entails(T.implies(inr(sk, term.shape), t), level)
        finally:
            del c.index_terms[save_i:]
    return c.entails(term, level)


def assume(term):
    c = ctx()
    if isinstance(term, list):
        for t in term:
            assume(t)
        return
    if isinstance(term, FA):
        sh, fn = term.shape, term.fn
        # the candidate speaks about the state now: evaluate it once, instantiate by substitution
        ph = tuple(T.var("$h%d" % d, "I") for d in range(len(sh)))
        pa = [next(a for a in T.walk([p]) if a.op == "var") for p in ph]
        t0 = T.implies(inr(ph, sh), fn(ph))
        f = lambda *ix: T.subst(t0, {p.id: i for p, i in zip(pa, ix)})
        if term.on is not None:
            # instantiate only where the constrained array is read
            r = term.on.get(tuple(T.var("$t%d" % d, "I") for d in range(term.on.ndim)))
            if r.op == "app":
                c.forall_prefix(r.args[0], len(sh), f)
                return
        c.forall_shape(sh, f)
        return
    c.assume(term)


def sort_of(v):
    return lift(v).sort


def symbols(t):
    """names of the variables and functions in a candidate"""
    if isinstance(t, list):
        return set().union(*[symbols(x) for x in t]) if t else set()
    if isinstance(t, FA):
        t = t.fn(tuple(T.var("$h%d" % d, "I") for d in range(len(t.shape))))
    return {x.args[0] for x in T.walk([t]) if x.op in ("var", "app")}


def havoc(loop, slots):
    c = ctx()
    c.havocs += 1
    _fn = c.fresh_name

    def note(base):
        n = _fn(base)
        c.hv_names.append(n)
        return n
    c.fresh_name = note
    try:
        _havoc(c, loop, slots)
    finally:
        del c.fresh_name


def _havoc(c, loop, slots):
    seen = {}
    for s in slots:
        if s.kind == "v":
            v = s.get()
            if isinstance(v, Arr):
                sh = list(v._shape)
                for d in range(len(sh)):
                    if (s.sid, d) in loop.info.symdims:
                        sh[d] = c.fresh("dim", "I")
                        c.assume(T.le(z(), sh[d]))
                dt = loop.info.sorts.get(s.sid, v.dt)
                a = uf_arr("hv_" + s.label, tuple(sh), dt)
                a.buf.origins = [v.buf] + list(getattr(v.buf, "origins", ()))
                s.set(a)
            elif isinstance(v, (bool,)) or (isinstance(v, SV) and v.t.sort == "B"):
                s.set(wrap(c.fresh("hv_" + s.label, loop.info.sorts.get(s.sid, "B"))))
            elif isinstance(v, (int, Fraction, SV)) or isinstance(v, float):
                srt = loop.info.sorts.get(s.sid) or ("R" if isinstance(v, float) else sort_of(v))
                s.set(wrap(c.fresh("hv_" + s.label, srt)))
            else:
                loop.entry[s.sid] = v
        elif s.kind == "b":
            b = s.get()
            had = b.total is not None
            nm = c.fresh_name("hv_" + b.name)
            c.register_array(nm, b.shape)
            srt = {"f": "R", "i": "I", "b": "B"}[b.dt]
            if b.elems is not None:
                b.elems = [T.app(nm, ix, srt) for ix in all_index(b.shape)]
            else:
                b.memo = {}
                b.getter = lambda ix, nm=nm, srt=srt: T.app(nm, ix, srt)
            if had:
                b.total = c.fresh("tot_" + b.name, "R")
        elif s.kind == "l":
            o = s.get()
            n = c.fresh("len_" + o.name, "I")
            c.assume(T.le(z(), n))
            dt = loop.info.sorts.get(s.sid, "i")
            list.clear(o)
            o.sym = (n, uf_arr("el_" + o.name, (n,), dt))


def end_check(loop, slots, pre_types):
    """type compatibility of the frame at the end of the iteration"""
    c = ctx()
    bad = False
    for s in slots:
        if s.kind == "v":
            v = s.get()
            p = pre_types[s.sid]
            if p[0] == "arr":
                if not isinstance(v, Arr) or v.ndim != p[1]:
                    raise Unsupported("loop changes the kind of %s" % s.label)
                if v.dt != p[2]:
                    if {v.dt, p[2]} == {"f", "i"} and p[2] == "i":
                        loop.info.sorts[s.sid] = "f"
                        bad = "types"
                    elif not {v.dt, p[2]} == {"f", "i"}:
                        raise Unsupported("loop changes the dtype of %s" % s.label)
            elif p[0] == "sc":
                if not isinstance(v, (SV, int, Fraction, float)):
                    raise Unsupported("loop changes the kind of %s" % s.label)
                if is_infv(v):
                    raise Unsupported("infinite loop variable")
                so = sort_of(v)
                if so != p[1]:
                    if p[1] == "I" and so == "R":
                        loop.info.sorts[s.sid] = "R"
                        bad = "types"
                    elif p[1] == "R" and so == "I":
                        pass
                    else:
                        raise Unsupported("loop changes the sort of %s" % s.label)
            else:
                if v is not p[1] and not (type(v) is type(p[1]) and isinstance(v, (str, tuple, type(None))) and v == p[1]):
                    raise Unsupported("loop-carried %s of %s" % (s.label, type(v).__name__))
        elif s.kind == "l":
            o = s.get()
    return bad


def is_infv(v):
    return isinstance(v, float) and (v != v or v in (float("inf"), float("-inf")))


def pretypes(loop, slots):
    out = {}
    for s in slots:
        if s.kind != "v":
            continue
        v = s.get()
        if isinstance(v, Arr):
            out[s.sid] = ("arr", v.ndim, loop.info.sorts.get(s.sid, v.dt))
        elif isinstance(v, (SV, bool, int, Fraction)) or (isinstance(v, float) and not is_infv(v)):
            out[s.sid] = ("sc", loop.info.sorts.get(s.sid) or ("R" if isinstance(v, float) else sort_of(v)))
        else:
            out[s.sid] = ("obj", v)
    return out


def as_fraction_slots(slots):
    for s in slots:
        if s.kind == "v":
            v = s.get()
            if isinstance(v, float) and not is_infv(v):
                s.set(T.to_fraction(v))


def cut(interp, s, fr, loop, iterate, exit_, kmax):
    """common part of for and while"""
    c = ctx()
    slots = collect(loop)
    as_fraction_slots(slots)
    pt = pretypes(loop, slots)
    alias = {}
    for sl in slots:
        if sl.kind == "v" and isinstance(sl.get(), Arr):
            b = id(sl.get().buf)
            if b in alias:
                raise Unsupported("aliased loop-carried arrays %s, %s" % (alias[b], sl.label))
            alias[b] = sl.label
    cands = gen_cands(interp, loop, slots)
    k0 = T.num(0)
    live = []
    cnt, ser = dict(c.counters), c.serial
    for cid, fn in cands:
        if cid in loop.info.dropped:
            continue
        t = fn(k0)
        if t is None:
            continue
        if not check(t, 1 if not cid.startswith("spec:") else 2):
            loop.info.dropped.add(cid)
            if cid.startswith("spec:"):
                c.dropped_specs.add("%s/%s (entry)" % (loop.key[0], cid))
            continue
        live.append((cid, fn))
    c.counters, c.serial = cnt, ser
    which = c.choose(2)
    c.hv_names = []
    havoc(loop, slots)
    if which == 0:
        k = c.fresh("k", "I")
        c.assume(T.le(z(), k))
        if kmax is not None:
            c.assume(T.lt(k, kmax))
    else:
        if kmax is not None:
            k = kmax
        else:
            k = c.fresh("kx", "I")
            c.assume(T.le(z(), k))
    loop.k = k
    pinned = set()
    for cid, fn in live:
        t = fn(k)
        if cid.startswith("spec:"):
            pinned |= symbols(t)
        assume(t)
    # havocked places no given invariant speaks about: a countermodel through them refutes nothing
    c.loose |= set(c.hv_names) - pinned
    if which == 0:
        for n in loop.unbound:
            fr.locals[n] = Unbound("first iteration", T.lt(z(), k))
        c.loopstack.append(loop)
        fr.loops.append(loop)
        snap = [(o, dict(o.__dict__)) for o in list(c.objs.values()) if o.__dict__.get("__dv_serial__", 10**9) <= loop.serial]
        try:
            r = iterate(k)
            # writes made by contracts (native code) are part of the loop frame too
            for o, d0 in snap:
                for a, v in o.__dict__.items():
                    if a not in d0 or d0[a] is not v:
                        loop.wrote_attr(o, a)
        finally:
            if c.loopstack and c.loopstack[-1] is loop:
                c.loopstack.pop()
            if fr.loops and fr.loops[-1] is loop:
                fr.loops.pop()
        if r is BREAK:
            return None
        if isinstance(r, Ret):
            return r
        if c.need_restart:
            raise Restart()
        bad = end_check(loop, slots, pt)
        k1 = T.add(k, T.num(1))
        for cid, fn in live:
            try:
                t = fn(k1)
            except (KeyError, AttributeError):
                t = T.FALSE
            if not check(t, 1 if not cid.startswith("spec:") else 3):
                loop.info.dropped.add(cid)
                if ".dim" in cid and not cid.endswith(">="):
                    sid, d = cid.rsplit(".dim", 1)
                    loop.info.symdims.add((sid, int(d)))
                    bad = "types"
                if cid.startswith("spec:"):
                    c.dropped_specs.add("%s/%s" % (loop.key[0], cid))
                bad = bad or True
        if bad:
            if bad == "types":
                c.restart_from = min(c.restart_from, loop.info.order)
            raise Restart()
        raise PathEnd()
    # exit
    for n in loop.unbound:
        fr.locals[n] = Unbound("bound only inside a loop")
    r = exit_(k)
    return r


def run_for(interp, s, it, fr):
    si = sym_iter(it)
    if si is None:
        cnt = 0
        if isinstance(it, SV):
            raise Unsupported("iteration over a scalar")
        for x in it:
            cnt += 1
            if cnt > 20000:
                raise Unsupported("concrete loop too long")
            interp.assign(s.target, x, fr)
            r = interp.block(s.body, fr)
            if r is BREAK:
                return None
            if isinstance(r, Ret):
                return r
        return interp.block(s.orelse, fr)
    c = ctx()
    loop = begin(interp, s, fr, None)
    n = si.n
    loop.n = n
    tnames = [x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)]

    def iterate(k):
        interp.assign(s.target, si.elem(k), fr)
        return interp.block(s.body, fr)

    saved = {t: fr.locals.get(t) for t in tnames}

    def exit_(k):
        # value of the loop variable after the loop
        if c.entails(T.lt(z(), n), 1):
            interp.assign(s.target, si.elem(T.sub(n, T.num(1))), fr)
        else:
            for t in tnames:
                fr.locals[t] = Unbound("loop variable after a possibly empty loop")
        return interp.block(s.orelse, fr)

    return cut(interp, s, fr, loop, iterate, exit_, n)


def run_while(interp, s, fr):
    c = ctx()
    if interp.unroll_while:
        for _ in range(400):
            if not interp.truth(interp.ev(s.test, fr)):
                return interp.block(s.orelse, fr)
            r = interp.block(s.body, fr)
            if r is BREAK:
                return None
            if isinstance(r, Ret):
                return r
        raise Unsupported("while unrolling limit")
    loop = begin(interp, s, fr, None)

    def iterate(k):
        if not interp.truth(interp.ev(s.test, fr)):
            raise PathEnd()
        return interp.block(s.body, fr)

    def exit_(k):
        if interp.truth(interp.ev(s.test, fr)):
            raise PathEnd()
        return interp.block(s.orelse, fr)

    return cut(interp, s, fr, loop, iterate, exit_, None)


class Spec:
    """loop contract attached to a function name: list of (depth or None, cid, fn(env))"""

    def __init__(self, depth, cid, fn, auto=True):
        self.depth, self.cid, self.fn, self.auto = depth, cid, fn, auto

    def cands(self, loop):
        d = len(loop.fr.loops) + 1
        if self.depth is not None and d != self.depth:
            return []
        return [(self.cid, self.fn)]
