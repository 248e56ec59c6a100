"""Symbolic numpy arrays: possibly symbolic shapes, aliasing views."""
from fractions import Fraction

from . import terms as T
from .core import SV, ctx, lift, wrap, Unsupported, shape_key, floordiv, PathEnd

ZERO = lambda: T.num(0)


def ci(t):
    """concrete int of a term or None"""
    c = T.constval(t)
    return int(c) if c is not None else None


def tdim(v):
    return lift(v)


def dims_equal(a, b):
    if a is b:
        return True
    ca, cb = ci(a), ci(b)
    if ca is not None and cb is not None:
        return ca == cb
    return ctx().entails(T.eq(a, b), 1)


def conv_dtype(t, dt):
    if dt == "b":
        return t if t.sort == "B" else T.not_(T.eq(t, T.num(0)))
    if dt == "i":
        if t.sort == "B":
            return T.as_num(t)
        return T.tosort(T.trunc(t), "I")
    return T.tosort(T.as_num(t), "R")


SMALL = 100


class Buf:
    n = 0

    def __init__(self, shape, dt, get=None, elems=None, name=None):
        self.shape, self.dt = tuple(shape), dt
        self.elems = elems
        self.getter = get
        self.memo = {}
        self.name = name or ctx().fresh_name("buf")
        self.total = None  # ghost total
        c = ctx()
        c.serial += 1
        self.serial = c.serial
        c.bufs[self.name] = self

    def strides(self):
        out, s = [], 1
        for d in reversed(self.shape):
            out.append(s)
            s *= ci(d)
        return list(reversed(out))

    def get(self, idx):
        if self.elems is not None:
            return dense_get(self.elems, self.shape, idx)
        key = tuple(i.id for i in idx)
        r = self.memo.get(key)
        if r is None:
            r = self.getter(idx)
            self.memo[key] = r
        return r

    def snapshot(self):
        if self.elems is not None:
            el = list(self.elems)
            sh = self.shape
            return lambda idx: dense_get(el, sh, idx)
        g, memo = self.getter, self.memo

        def snap(idx):
            key = tuple(i.id for i in idx)
            r = memo.get(key)
            if r is None:
                r = g(idx)
                memo[key] = r
            return r

        return snap

    def note_write(self):
        for l in ctx().loopstack:
            l.wrote_buf(self)

    def write(self, cond, val, point=None):
        """new[idx] = val(idx) where cond(idx)"""
        self.note_write()
        dt = self.dt
        if self.total is not None:
            if point is not None:
                old = self.get(point)
                self.total = T.add(self.total, T.sub(conv_dtype(val(point), dt), old))
            else:
                self.total = ctx().fresh("tot_" + self.name, "R")
        if self.elems is not None:
            new = list(self.elems)
            for k, idx in enumerate(all_index(self.shape)):
                c = cond(idx)
                if c.op == "bc" and not c.args[0]:
                    continue
                new[k] = T.ite(c, conv_dtype(val(idx), dt), new[k]) if dt != "b" else bite(c, conv_dtype(val(idx), dt), new[k])
            self.elems = new
            return
        old = self.snapshot()
        self.memo = {}

        def g(idx):
            c = cond(idx)
            if c.op == "bc":
                return conv_dtype(val(idx), dt) if c.args[0] else old(idx)
            return bite(c, conv_dtype(val(idx), dt), old(idx))

        self.getter = g


def bite(c, a, b):
    return T.ite(c, a, b)


def all_index(shape):
    import itertools

    return [tuple(T.num(i, "I") for i in ix) for ix in itertools.product(*[range(ci(d)) for d in shape])]


def dense_get(elems, shape, idx):
    cs = [ci(i) for i in idx]
    if all(c is not None for c in cs):
        k = 0
        for c, d in zip(cs, shape):
            dd = ci(d)
            if not 0 <= c < dd:
                raise Unsupported("dense index out of range")
            k = k * dd + c
        return elems[k]
    # ite over positions
    r = None
    al = all_index(shape)
    for k in range(len(al) - 1, -1, -1):
        c = T.and_(*[T.eq(i, j) for i, j in zip(idx, al[k])])
        r = elems[k] if r is None else T.ite(c, elems[k], r)
    return r


def is_small(shape):
    n = 1
    for d in shape:
        c = ci(d)
        if c is None:
            return False
        n *= c
    return n <= SMALL


def new_arr(shape, dt, get, name=None):
    shape = tuple(shape)
    if is_small(shape):
        el = [conv_dtype(get(ix), dt) for ix in all_index(shape)]
        return Arr(Buf(shape, dt, elems=el, name=name))
    return Arr(Buf(shape, dt, get=lambda ix: conv_dtype(get(ix), dt), name=name))


def uf_arr(name, shape, dt):
    """array of unknown content"""
    shape = tuple(shape)
    nm = ctx().fresh_name(name)
    sort = {"f": "R", "i": "I", "b": "B"}[dt]
    ctx().register_array(nm, shape)
    get = lambda ix: T.app(nm, ix, sort)
    if is_small(shape):
        a = Arr(Buf(shape, dt, elems=[get(ix) for ix in all_index(shape)], name=nm))
    else:
        a = Arr(Buf(shape, dt, get=get, name=nm))
    a.uf = nm
    return a


def result_dt(*dts):
    if "f" in dts:
        return "f"
    if "i" in dts:
        return "i"
    return "b"


def dt_of(t):
    return {"R": "f", "I": "i", "B": "b"}[t.sort]


class Sl:
    """per-axis selector of a view: fixed index or range"""

    __slots__ = ("fix", "start", "len")

    def __init__(self, fix=None, start=None, len=None):
        self.fix, self.start, self.len = fix, start, len


class Arr:
    __array_priority__ = 2000
    uf = None

    def __init__(self, buf, sels=None, shape=None, base=None):
        self.buf = buf
        self.sels = sels  # None: whole buffer
        self.base = base  # reshape view: (base Arr)
        if base is not None:
            self._shape = tuple(shape)
        elif sels is None:
            self._shape = buf.shape
        else:
            self._shape = tuple(s.len for s in sels if s.fix is None)
        self.writeable = True

    # ------------------------------------------------------------ basics
    @property
    def dt(self):
        return self.buf.dt

    @property
    def shape(self):
        return tuple(wrap(d) for d in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    @property
    def dtype(self):
        return DType(self.buf.dt)

    def getter(self):
        """immutable view-index getter of the current contents"""
        if self.base is not None:
            g = self.base.getter()
            bsh, sh = self.base._shape, self._shape

            def get(ix):
                return g(reindex(ix, sh, bsh))

            return get
        snap = self.buf.snapshot()
        if self.sels is None:
            return snap
        sels = self.sels
        return lambda ix: snap(self.to_buf(ix, sels))

    @staticmethod
    def to_buf(ix, sels):
        out, k = [], 0
        for s in sels:
            if s.fix is not None:
                out.append(s.fix)
            else:
                out.append(T.add(ix[k], s.start))
                k += 1
        return tuple(out)

    def get(self, ix):
        if self.base is not None:
            return self.base.get(reindex(ix, self._shape, self.base._shape))
        if self.sels is None:
            return self.buf.get(ix)
        return self.buf.get(self.to_buf(ix, self.sels))

    def write_where(self, cond, val, point=None):
        if self.base is not None:
            bsh, sh = self.base._shape, self._shape
            self.base.write_where(
                lambda b: cond(reindex(b, bsh, sh)),
                lambda b: val(reindex(b, bsh, sh)),
                point=None if point is None else reindex(point, sh, bsh),
            )
            return
        if self.sels is None:
            self.buf.write(cond, val, point)
            return
        sels = self.sels

        def split(b):
            conds, v = [], []
            for s, bi in zip(sels, b):
                if s.fix is not None:
                    conds.append(T.eq(bi, s.fix))
                else:
                    conds.append(T.le(s.start, bi))
                    conds.append(T.lt(bi, T.add(s.start, s.len)))
                    v.append(T.sub(bi, s.start))
            return T.and_(*conds), tuple(v)

        def c2(b):
            c, v = split(b)
            if c.op == "bc" and not c.args[0]:
                return c
            return T.and_(c, cond(v))

        self.buf.write(c2, lambda b: val(split(b)[1]), point=None if point is None else self.to_buf(point, sels))

    # ------------------------------------------------------------ indexing
    def _norm_index(self, k, dim, what="index"):
        t = lift(k)
        if t.sort == "B":
            raise Unsupported("boolean scalar index")
        if t.sort == "R":
            t = T.tosort(T.trunc(t), "I")
        c, d = ci(t), ci(dim)
        if c is not None and c < 0:
            t = T.add(dim, t)
            c = ci(t)
        if c is not None and d is not None:
            if not 0 <= c < d:
                ctx().prove("index-in-range", T.FALSE, kind="safety", detail="index %s of axis %s" % (c, d))
                raise PathEnd()
            return t
        ok = T.and_(T.le(T.num(0), t), T.lt(t, dim))
        ctx().prove("index-in-range", ok, kind="safety",
                    detail="%s < %s" % (T.show(t)[:300], T.show(dim)[:80]))
        return t

    def _bound(self, k, dim, default):
        if k is None:
            return default
        t = lift(k)
        c, d = ci(t), ci(dim)
        if c is not None and c < 0:
            t = T.add(dim, t)
            c = ci(t)
        if c is not None and d is not None:
            return T.num(max(0, min(c, d)), "I")
        zero = T.num(0)
        ctx().prove("slice-in-range", T.and_(T.le(zero, t), T.le(t, dim)), kind="safety",
                    detail="%s <= %s" % (T.show(t)[:300], T.show(dim)[:80]))
        return t

    def _range(self, sl, dim):
        if sl.step not in (None, 1):
            raise Unsupported("slice step")
        a = self._bound(sl.start, dim, T.num(0))
        b = self._bound(sl.stop, dim, dim)
        n = T.sub(b, a)
        cn = ci(n)
        if cn is not None:
            n = T.num(max(cn, 0), "I")
        elif not ctx().entails(T.le(T.num(0), n), 1):
            n = T.max_(n, T.num(0))
        return a, n

    def __getitem__(self, key):
        kind, r = self._index(key)
        if kind == "point":
            return wrap(self.get(r))
        return r

    def _index(self, key):
        from .npshim import MaskIdx

        if not isinstance(key, tuple):
            key = (key,)
        if len(key) == 1 and isinstance(key[0], list):
            from . import npshim

            key = (npshim.asarr(key[0]),)
        key = tuple(k for k in key)
        if any(k is Ellipsis for k in key):
            n = len(self._shape) - (len(key) - 1)
            i = [k is Ellipsis for k in key].index(True)
            key = key[:i] + (slice(None),) * n + key[i + 1:]
        # newaxis
        if any(k is None for k in key):
            return self._newaxis(key)
        fancy = [k for k in key if isinstance(k, (Arr, list))]
        if fancy:
            return "arr", self._fancy_get(key)
        if len(key) > len(self._shape):
            raise Unsupported("too many indices")
        key = key + (slice(None),) * (len(self._shape) - len(key))
        if all(not isinstance(k, slice) for k in key):
            return "point", tuple(self._norm_index(k, d) for k, d in zip(key, self._shape))
        # view
        if self.base is not None:
            return "arr", self._copy_view(key)
        sels = self.sels or [Sl(start=T.num(0), len=d) for d in self.buf.shape]
        out, k = [], 0
        for s in sels:
            if s.fix is not None:
                out.append(s)
                continue
            kk = key[k]
            k += 1
            if isinstance(kk, slice):
                if kk.step == -1 and kk.start is None and kk.stop is None:
                    return "arr", self._copy_view(key)
                a, n = self._range(kk, s.len)
                out.append(Sl(start=T.add(s.start, a), len=n))
            else:
                t = self._norm_index(kk, s.len)
                out.append(Sl(fix=T.add(s.start, t)))
        return "arr", Arr(self.buf, out)

    def _newaxis(self, key):
        g0 = self
        inner = tuple(k for k in key if k is not None)
        sub = g0[inner]
        # position of new axes among result axes
        pos, ax = [], 0
        for k in key:
            if k is None:
                pos.append(ax)
                ax += 1
            elif isinstance(k, slice):
                ax += 1
        sh = list(sub._shape)
        for p in pos:
            sh.insert(p, T.num(1))
        g = sub.getter()
        return "arr", new_arr(sh, sub.dt, lambda ix: g(tuple(x for i, x in enumerate(ix) if i not in pos)))

    def _copy_view(self, key):
        """gather of slices / ints as a copy (used for reshape views)"""
        g = self.getter()
        maps, sh = [], []
        for kk, d in zip(key, self._shape):
            if isinstance(kk, slice):
                if kk.step == -1:
                    n = d
                    maps.append(("r", T.sub(d, T.num(1)), -1))
                    sh.append(n)
                else:
                    a, n = self._range(kk, d)
                    maps.append(("r", a, 1))
                    sh.append(n)
            else:
                maps.append(("f", self._norm_index(kk, d), 0))

        def get(ix):
            out, k = [], 0
            for m in maps:
                if m[0] == "f":
                    out.append(m[1])
                else:
                    out.append(T.add(m[1], ix[k]) if m[2] == 1 else T.sub(m[1], ix[k]))
                    k += 1
            return g(tuple(out))

        return new_arr(sh, self.dt, get)

    def _fancy_parts(self, key):
        """classify: list of per-axis ('fix',t) ('sl',a,n) ('ix',Arr) ('mask',Arr,naxes)"""
        from . import npshim

        parts, ax = [], 0
        for k in key:
            if isinstance(k, list):
                k = npshim.asarr(k)
            if isinstance(k, Arr):
                if k.dt == "b":
                    for d1, d2 in zip(k._shape, self._shape[ax:ax + k.ndim]):
                        if not dims_equal(d1, d2):
                            raise Unsupported("mask shape mismatch")
                    parts.append(("mask", k, ax))
                    ax += k.ndim
                else:
                    parts.append(("ix", k, ax))
                    ax += 1
            elif isinstance(k, slice):
                a, n = self._range(k, self._shape[ax])
                parts.append(("sl", a, n))
                ax += 1
            else:
                parts.append(("fix", self._norm_index(k, self._shape[ax])))
                ax += 1
        while ax < len(self._shape):
            parts.append(("sl", T.num(0), self._shape[ax]))
            ax += 1
        return parts

    def _fancy_get(self, key):
        from .npshim import Sel

        parts = self._fancy_parts(key)
        g = self.getter()
        masks = [p for p in parts if p[0] == "mask"]
        if masks:
            if len(masks) > 1 or any(p[0] in ("ix", "fix") for p in parts):
                raise Unsupported("mixed mask indexing")
            m = masks[0][1]
            if is_small(m._shape) and all(e.op == "bc" for e in [m.get(i) for i in all_index(m._shape)]) and len(parts) == 1:
                chosen = [i for i in all_index(m._shape) if m.get(i).args[0]]
                return new_arr((T.num(len(chosen)),), self.dt, lambda ix: T.ite(T.TRUE, g(chosen[ci(ix[0])]), T.num(0)))
            pre = []
            for p in parts:
                if p[0] == "mask":
                    break
                pre.append(p)
            post = parts[len(pre) + 1:]
            if post:
                raise Unsupported("mask followed by slices")
            if any(ci(p[2]) is None for p in pre):
                raise Unsupported("mask after symbolic slice")
            if isinstance(self, Sel) and isinstance(m, Sel) and not pre and self.pristine() and m.pristine() and \
                    self.key == m.key and not self.psh and not m.psh:
                # selection of a selection: one selection of the base by both conditions
                mg1 = ctx().state["masks"][self.key][3]
                msrc, src, dt = m.src, self.src, self.dt
                both = new_arr(self.msh, "b", lambda ix: T.and_(mg1(ix), msrc(ix)))
                return Sel.make(both, lambda ix: conv_dtype(src(tuple(ix)), dt), dt, [])
            return Sel.make(m, g, self.dt, pre)
        ixs = [p for p in parts if p[0] == "ix"]
        sh0 = ixs[0][1]._shape
        for p in ixs[1:]:
            if len(p[1]._shape) != len(sh0) or not all(dims_equal(a, b) for a, b in zip(p[1]._shape, sh0)):
                raise Unsupported("fancy broadcasting")
        # range obligation at an arbitrary position
        for p in ixs:
            fancy_range_check(p[1], self._shape[p[2]])
        gs = {id(p): p[1].getter() for p in ixs}
        if len(parts) == len(ixs) or all(p[0] in ("ix", "fix") for p in parts):
            def get(ix):
                out = []
                for p in parts:
                    out.append(gs[id(p)](ix) if p[0] == "ix" else p[1])
                return g(tuple(out))

            return new_arr(sh0, self.dt, get)
        # slices + index arrays: result axes order (adjacent advanced indices in place)
        order = []
        first = [i for i, p in enumerate(parts) if p[0] == "ix"][0]
        sh, layout = [], []
        for i, p in enumerate(parts):
            if p[0] == "sl":
                layout.append((len(sh), 1))
                sh.append(p[2])
            elif p[0] == "ix" and i == first:
                layout.append((len(sh), len(sh0)))
                sh.extend(sh0)
            else:
                layout.append(None)
        fpos = layout[first][0]

        def get(ix):
            out = []
            for i, p in enumerate(parts):
                if p[0] == "sl":
                    out.append(T.add(p[1], ix[layout[i][0]]))
                elif p[0] == "ix":
                    out.append(gs[id(p)](tuple(ix[fpos:fpos + len(sh0)])))
                else:
                    out.append(p[1])
            return g(tuple(out))

        return new_arr(sh, self.dt, get)

    def __setitem__(self, key, value):
        from . import npshim
        from .npshim import Sel

        if isinstance(value, (list, tuple)):
            value = npshim.asarr(value)
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, (Arr, list)) for k in key):
            return self._fancy_set(key, value)
        kind, r = self._index(key)
        if kind == "point":
            if isinstance(value, Arr):
                if value.ndim == 0 or (value.ndim == 1 and ci(value._shape[0]) == 1):
                    value = wrap(value.get(tuple(T.num(0) for _ in value._shape)))
                else:
                    raise Unsupported("array stored in a cell")
            v = lift(value)
            p = r
            self.write_where(lambda ix: T.and_(*[T.eq(a, b) for a, b in zip(ix, p)]), lambda ix: v, point=p)
            return
        if self.base is not None:
            # write through a reshape view with slices
            if all(isinstance(k, slice) and k == slice(None) for k in key):
                r = self
            else:
                raise Unsupported("slice store through reshape view")
        r.fill_from(value)

    def fill_from(self, value):
        if isinstance(value, Arr):
            sh = self._shape
            vs = value._shape
            if len(vs) > len(sh):
                extra = vs[:len(vs) - len(sh)]
                if not all(ci(d) == 1 for d in extra):
                    raise Unsupported("broadcast in store")
            vg = bget(value, sh)
            self.write_where(lambda ix: T.TRUE, vg)
        else:
            v = lift(value)
            self.write_where(lambda ix: T.TRUE, lambda ix: v)

    def _fancy_set(self, key, value):
        from .npshim import Sel

        parts = self._fancy_parts(key)
        masks = [p for p in parts if p[0] == "mask"]
        if masks:
            if len(masks) > 1 or any(p[0] in ("ix", "fix") for p in parts):
                raise Unsupported("mixed mask store")
            m = masks[0][1]
            mg = m.getter()
            pre = parts[:parts.index(masks[0])]
            if parts[len(pre) + 1:]:
                raise Unsupported("mask store layout")
            k = len(pre)
            inpre = lambda ix: T.and_(*[T.and_(T.le(p[1], i), T.lt(i, T.add(p[1], p[2]))) for p, i in zip(pre, ix)])
            if isinstance(value, Arr):
                vg = value.aligned(m, k) if isinstance(value, Sel) else None
                if vg is None:
                    if value.ndim == 1 and ci(value._shape[0]) == 1:
                        v = value.get((T.num(0),))
                        vg = lambda ix: v
                    else:
                        vg = Sel.spread(value, m, k)
                self.write_where(lambda ix: T.and_(inpre(ix), mg(ix[k:])),
                                 lambda ix: vg(tuple(T.sub(i, p[1]) for p, i in zip(pre, ix)) + tuple(ix[k:])))
            else:
                v = lift(value)
                self.write_where(lambda ix: T.and_(inpre(ix), mg(ix[k:])), lambda ix: v)
            return
        self._scatter(parts, value)

    def _scatter(self, parts, value):
        ixs = [p for p in parts if p[0] == "ix"]
        sh0 = ixs[0][1]._shape
        if len(sh0) != 1:
            raise Unsupported("scatter with multi-dim index")
        for p in ixs:
            fancy_range_check(p[1], self._shape[p[2]])
        n = sh0[0]
        gs = [p[1].getter() for p in ixs]
        if isinstance(value, Arr):
            if any(p[0] == "sl" for p in parts):
                raise Unsupported("scatter of array with slices")
            if value.ndim == 1 and dims_equal(value._shape[0], n):
                valg = value.getter()
            elif value.ndim == 1 and ci(value._shape[0]) == 1:
                v0 = value.get((T.num(0),))
                valg = lambda ix: v0
            else:
                raise Unsupported("scatter shape")
        else:
            v = lift(value)
            valg = lambda ix: v
        cn = ci(n)
        ixpos = [i for i, p in enumerate(parts) if p[0] == "ix"]

        def others(ix):
            cs = []
            for i, p in enumerate(parts):
                if p[0] == "fix":
                    cs.append(T.eq(ix[i], p[1]))
                elif p[0] == "sl":
                    cs.append(T.le(p[1], ix[i]))
                    cs.append(T.lt(ix[i], T.add(p[1], p[2])))
            return T.and_(*cs)

        if cn is not None and cn <= SMALL:
            for q in range(cn):
                qt = (T.num(q),)
                tgt = [g(qt) for g in gs]
                self.write_where(
                    lambda ix, tgt=tgt: T.and_(others(ix), *[T.eq(ix[i], t) for i, t in zip(ixpos, tgt)]),
                    lambda ix, qt=qt: valg(qt))
            return
        hit = hit_function(gs, n)
        self.write_where(lambda ix: T.and_(others(ix), hit(tuple(ix[i] for i in ixpos))[0]),
                         lambda ix: valg((hit(tuple(ix[i] for i in ixpos))[1],)))

    # ------------------------------------------------------------ operators
    def _bin(self, o, f, dt=None, swap=False):
        return elementwise(f, [o, self] if swap else [self, o], dt)

    def __add__(self, o): return self._bin(o, T.add)
    def __radd__(self, o): return self._bin(o, T.add, swap=True)
    def __sub__(self, o): return self._bin(o, T.sub)
    def __rsub__(self, o): return self._bin(o, T.sub, swap=True)
    def __mul__(self, o): return self._bin(o, _mulb)
    def __rmul__(self, o): return self._bin(o, _mulb, swap=True)
    def __truediv__(self, o): return self._bin(o, T.div, "f")
    def __rtruediv__(self, o): return self._bin(o, T.div, "f", swap=True)
    def __floordiv__(self, o): return self._bin(o, floordiv)
    def __mod__(self, o):
        from .core import mod
        return self._bin(o, mod)
    def __pow__(self, o): return self._bin(o, T.power)
    def __rpow__(self, o): return self._bin(o, T.power, swap=True)
    def __neg__(self): return elementwise(lambda a: T.neg(T.as_num(a)), [self])
    def __pos__(self): return self.copy()
    def __abs__(self):
        return elementwise(lambda a: T.ite(T.lt(a, T.num(0)), T.neg(a), a), [self])
    def __invert__(self):
        if self.dt != "b":
            raise Unsupported("~ on non boolean")
        return elementwise(T.not_, [self], "b")
    def __and__(self, o): return self._bin(o, _logic(T.and_), "b")
    __rand__ = __and__
    def __or__(self, o): return self._bin(o, _logic(T.or_), "b")
    __ror__ = __or__
    def __xor__(self, o): return self._bin(o, _logic(lambda a, b: T.not_(T.iff(a, b))), "b")
    def __lt__(self, o): return self._bin(o, _n(T.lt), "b")
    def __le__(self, o): return self._bin(o, _n(T.le), "b")
    def __gt__(self, o): return self._bin(o, _n(lambda a, b: T.lt(b, a)), "b")
    def __ge__(self, o): return self._bin(o, _n(lambda a, b: T.le(b, a)), "b")
    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._bin(o, _eq, "b")
    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._bin(o, lambda a, b: T.not_(_eq(a, b)), "b")
    __hash__ = None

    def _ibin(self, r):
        self.fill_from(r)
        return self

    def __iadd__(self, o): return self._ibin(self + o)
    def __isub__(self, o): return self._ibin(self - o)
    def __imul__(self, o): return self._ibin(self * o)
    def __itruediv__(self, o): return self._ibin(self / o)
    def __iand__(self, o): return self._ibin(self & o)
    def __ior__(self, o): return self._ibin(self | o)
    def __ipow__(self, o): return self._ibin(self ** o)

    def __len__(self):
        c = ci(self._shape[0])
        if c is None:
            raise Unsupported("native len() of symbolic array")
        return c

    def __iter__(self):
        c = ci(self._shape[0])
        if c is None:
            raise Unsupported("native iteration over symbolic array")
        for i in range(c):
            yield self[i]

    def __bool__(self):
        if all(ci(d) == 1 for d in self._shape):
            return bool(wrap(self.get(tuple(T.num(0) for _ in self._shape))))
        raise Unsupported("truth value of an array")

    def __contains__(self, x):
        from . import npshim
        return bool(npshim.np_any(self == x))

    # ------------------------------------------------------------ methods
    def copy(self, order=None):
        g = self.getter()
        r = new_arr(self._shape, self.dt, g)
        r.buf.total = self.buf.total if self.sels is None and self.base is None else None
        return r

    def flatten(self, order=None):
        return self.ravel().copy()

    def ravel(self, order=None):
        return self.reshape(-1)

    def reshape(self, *shape, order=None):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        sh = [lift(s) for s in shape]
        total = T.num(1)
        for d in self._shape:
            total = T.mul(total, d)
        neg = [i for i, s in enumerate(sh) if ci(s) == -1]
        if neg:
            other = T.num(1)
            for i, s in enumerate(sh):
                if i != neg[0]:
                    other = T.mul(other, s)
            co = ci(other)
            if co is not None and ci(total) is not None:
                sh[neg[0]] = T.num(ci(total) // co)
            else:
                q = dict_div(total, other)
                if q is None:
                    raise Unsupported("reshape -1")
                sh[neg[0]] = q
        b = self
        while b.base is not None:  # reshaping a reshaped array back to the base's shape
            b = b.base
            if len(sh) == len(b._shape) and all(x is y for x, y in zip(sh, b._shape)):
                return b.view() if hasattr(b, "view") else b
        return Arr(self.buf, shape=sh, base=self)

    def transpose(self):
        g = self.getter()
        return new_arr(tuple(reversed(self._shape)), self.dt, lambda ix: g(tuple(reversed(ix))))

    @property
    def T(self):
        return self.transpose()

    def astype(self, dtype, **kw):
        from .npshim import dtkind

        g = self.getter()
        k = dtkind(dtype)
        return new_arr(self._shape, k, g) if not hasattr(self, "_astype") else self._astype(k)

    @property
    def flat(self):
        return Flat(self)

    def take(self, idxs, axis=None):
        if self.ndim != 1:
            return self.ravel()[idxs]
        return self[idxs]

    def fill(self, v):
        self.fill_from(v)

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        return wrap(self.get(tuple(T.num(0) for _ in self._shape)))

    def any(self, axis=None):
        from . import npshim
        return npshim.np_any(self, axis)

    def all(self, axis=None):
        from . import npshim
        return npshim.np_all(self, axis)

    def sum(self, axis=None):
        from . import npshim
        return npshim.np_sum(self, axis)

    def max(self, axis=None):
        from . import npshim
        return npshim.np_max(self, axis)

    def min(self, axis=None):
        from . import npshim
        return npshim.np_min(self, axis)

    def mean(self):
        from . import npshim
        return npshim.np_sum(self) / self.size

    def cumsum(self):
        from . import npshim
        return npshim.np_cumsum(self)

    def nonzero(self):
        from . import npshim
        return npshim.np_nonzero(self)

    def tolist(self):
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    def __repr__(self):
        return "Arr<%s %s %s>" % (self.buf.name, [T.show(d) for d in self._shape], self.dt)


def dict_div(a, b):
    """exact quotient of monomials"""
    pa, pb = T.pdict(a), T.pdict(b)
    if len(pb) != 1:
        return None
    (mb, cb), = pb.items()
    out = {}
    for m, c in pa.items():
        l = list(m)
        for x in mb:
            if x in l:
                l.remove(x)
            else:
                return None
        out[tuple(l)] = c / cb
    return T.frompoly(out, "I")


class Flat:
    def __init__(self, arr):
        self.arr = arr

    def __getitem__(self, k):
        v = self.arr.ravel() if self.arr.ndim != 1 else self.arr
        if isinstance(k, slice):
            return v[k].copy()
        r = v[k]
        return r

    def __setitem__(self, k, val):
        v = self.arr.ravel() if self.arr.ndim != 1 else self.arr
        v[k] = val

    def __iter__(self):
        return iter(self.arr.ravel())

    def copy(self):
        return self.arr.ravel().copy()


class DType:
    def __init__(self, k):
        self.kind = k

    def __eq__(self, o):
        from .npshim import dtkind
        try:
            return dtkind(o) == self.kind
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return {"f": "float", "i": "int", "b": "bool"}[self.kind]


def flat_of(ix, shape):
    k = T.num(0)
    for i, d in zip(ix, shape):
        k = T.add(T.mul(k, d), i)
    return k


def unflat(k, shape):
    """(multi-index) of flat index k, assuming k in range"""
    out = []
    rest = k
    for d in reversed(shape[1:]):
        q = floordiv(rest, d)
        out.append(T.sub(rest, T.mul(d, q)))
        rest = q
    out.append(rest)
    return tuple(reversed(out))


def reindex(ix, sh, bsh):
    """index in shape sh -> index in shape bsh (same total size)"""
    if len(sh) == len(bsh) and all(a is b for a, b in zip(sh, bsh)):
        return tuple(ix)
    # strip common trailing dims
    tail = []
    sh, bsh, ix = list(sh), list(bsh), list(ix)
    while len(sh) > 1 and len(bsh) > 1 and sh[-1] is bsh[-1]:
        tail.insert(0, ix.pop())
        sh.pop()
        bsh.pop()
    return unflat(flat_of(ix, sh), bsh) + tuple(tail)


def _n(f):
    return lambda a, b: f(T.as_num(a), T.as_num(b))


def _eq(a, b):
    if a.sort == "B" and b.sort == "B":
        return T.iff(a, b)
    return T.eq(T.as_num(a), T.as_num(b))


def _mulb(a, b):
    # boolean * x == ite
    if a.sort == "B" and b.sort == "B":
        return T.and_(a, b)
    if a.sort == "B":
        return T.ite(a, b, T.num(0, b.sort))
    if b.sort == "B":
        return T.ite(b, a, T.num(0, a.sort))
    return T.mul(a, b)


def _logic(f):
    def g(a, b):
        if a.sort != "B" or b.sort != "B":
            raise Unsupported("bitwise op on numbers")
        return f(a, b)
    return g


def bget(a, shape):
    """getter of a broadcast to shape"""
    g = a.getter()
    off = len(shape) - len(a._shape)
    flags = []
    for i, d in enumerate(a._shape):
        c = ci(d)
        if off + i < 0:
            flags.append(True)
            continue
        if c == 1 and ci(shape[off + i]) != 1:
            flags.append(True)
        else:
            if not dims_equal(d, shape[off + i]):
                ctx().prove("shape-match", T.FALSE, kind="safety",
                            detail="%s vs %s" % (T.show(d), T.show(shape[off + i])))
                raise PathEnd()
            flags.append(False)
    if off == 0 and not any(flags):
        return g

    def get(ix):
        return g(tuple(T.num(0) if fl else ix[off + i] for i, fl in enumerate(flags)))

    return get


def bshape(arrs):
    n = max(len(a._shape) for a in arrs)
    out = []
    for k in range(n):
        d = None
        for a in arrs:
            i = k - (n - len(a._shape))
            if i < 0:
                continue
            x = a._shape[i]
            if d is None or (ci(d) == 1 and ci(x) != 1):
                d = x
        out.append(d)
    return tuple(out)


def elementwise(f, args, dt=None):
    from .npshim import Sel, asarr

    args = [asarr(a) if isinstance(a, (list, tuple)) else a for a in args]
    for a in args:
        if not isinstance(a, (Arr, SV, int, float, Fraction, T.T)) and not hasattr(a, "item"):
            return NotImplemented
    arrs = [a for a in args if isinstance(a, Arr)]
    sels = [a for a in arrs if isinstance(a, Sel)]
    if sels:
        r = Sel.op(f, args, dt)
        if r is not None:
            return r
    sh = bshape(arrs)
    gs = []
    dts = []
    for a in args:
        if isinstance(a, Arr):
            gs.append(bget(a, sh))
            dts.append(a.dt)
        else:
            v = lift(a)
            gs.append(lambda ix, v=v: v)
            dts.append(dt_of(v))
    if dt is None:
        dt = result_dt(*dts)
        if dt == "b":
            dt = "i"
    return new_arr(sh, dt, lambda ix: f(*[g(ix) for g in gs]))


def fancy_range_check(idx, dim):
    """obligation: every element of idx is a valid index of an axis"""
    c = ctx()
    if is_small(idx._shape):
        for ix in all_index(idx._shape):
            t = idx.get(ix)
            ok = T.and_(T.le(T.num(0), t), T.lt(t, dim))
            if not (ok.op == "bc" and ok.args[0]):
                c.prove("index-in-range", ok, kind="safety", detail="fancy index")
        return
    sk = tuple(c.fresh("sk_ix", "I") for _ in idx._shape)
    inr = T.and_(*[T.and_(T.le(T.num(0), s), T.lt(s, d)) for s, d in zip(sk, idx._shape)])
    t = idx.get(sk)
    c.index_terms.append(sk)
    c.prove("index-in-range", T.implies(inr, T.and_(T.le(T.num(0), t), T.lt(t, dim))), kind="safety",
            detail="fancy index element " + T.show(t)[:200])


def hit_function(gs, n):
    """(hit?, witness) of a target tuple in the range of index arrays gs"""
    c = ctx()
    # canonical naming by content so that equal index arrays share the function
    probe = T.var("$p", "I")
    key = tuple(g((probe,)).id for g in gs) + (n.id,)
    reg = c.state.setdefault("hits", {})
    if key in reg:
        return reg[key]
    probe2 = T.var("$p2", "I")
    for k, g in enumerate(gs):
        off = T.sub(g((probe,)), probe)
        if off is T.sub(g((probe2,)), probe2):
            # a contiguous range of indices: closed form
            def hit(tgt, k=k, off=off):
                w = T.sub(tgt[k], off)
                return T.and_(T.le(T.num(0), w), T.lt(w, n),
                              *[T.eq(g2((w,)), t) for j, (g2, t) in enumerate(zip(gs, tgt)) if j != k]), w
            reg[key] = hit
            return hit
    nm = c.fresh_name("hit")
    wn = nm + "_w"

    def fact(*tgt):
        h = T.app(nm, tgt, "B")
        w = T.app(wn, tgt, "I")
        return T.implies(h, T.and_(T.le(T.num(0), w), T.lt(w, n), *[T.eq(g((w,)), t) for g, t in zip(gs, tgt)]))

    c.forall_app((nm, wn), fact, len(gs))

    def fact2(p):
        inr = T.and_(T.le(T.num(0), p), T.lt(p, n))
        return T.implies(inr, T.app(nm, tuple(g((p,)) for g in gs), "B"))

    c.foralls.append((("shape", lambda: c.arrays_by_shape.get((n.id,), ()), 1), fact2))

    def hit(tgt):
        return T.app(nm, tgt, "B"), T.app(wn, tgt, "I")

    reg[key] = hit
    return hit
