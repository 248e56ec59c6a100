"""Files in the deductive back end.

Path and directory operations of the program (os, pathlib, open) run natively inside
a scratch directory of the current path; an audit hook keeps every write there.
Values stay symbolic: a symbolic value written as text becomes a unique token that
the YAML reader turns back into the value; an .npz archive and a netCDF file are
token files whose contents are kept in a registry (assumed contracts of numpy.savez /
numpy.load, PyYAML and netCDF4)."""
import io as _io
import os
import pathlib
import shutil
import sys
import tempfile
import types
from fractions import Fraction

from . import terms as T
from .terms import Unsupported
from .core import SV, ctx, lift, wrap, cast, is_inf
from .arrays import Arr, new_arr

GUARD = []          # stack of allowed roots while a native file operation of the program runs
_hooked = [False]
WRITE_EVENTS = ("os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.chown", "os.link",
                "os.symlink", "shutil.rmtree", "shutil.move", "shutil.copyfile", "shutil.copytree")
NEVER = ("os.system", "subprocess.Popen", "os.fork", "os.exec", "os.kill", "os.posix_spawn", "socket.connect")


class Contained(Unsupported):
    pass


def _inside(p):
    if isinstance(p, int):
        return True
    try:
        p = os.path.realpath(os.fsdecode(p))
    except TypeError:
        return True
    return any(p == r or p.startswith(r + os.sep) for r in GUARD)


def _audit(ev, args):
    if not GUARD:
        return
    if ev in NEVER:
        raise Contained("call of %s" % ev)
    if ev == "open":
        mode = args[1]
        if isinstance(mode, str) and any(ch in mode for ch in "wax+") and not _inside(args[0]):
            raise Contained("write outside the scratch directory")
        return
    if ev in WRITE_EVENTS:
        for a in args[:2] if ev in ("os.rename", "os.link", "shutil.move") else args[:1]:
            if not _inside(a):
                raise Contained("%s outside the scratch directory" % ev)


def hook():
    if not _hooked[0]:
        _hooked[0] = True
        sys.addaudithook(_audit)


MODS = {"os", "posix", "posixpath", "genericpath", "pathlib", "shutil", "io", "_io", "tempfile", "subprocess",
        "codecs", "logging", "glob"}


def is_file_fn(fn):
    m = getattr(fn, "__module__", None)
    if m in MODS:
        return True
    s = getattr(fn, "__self__", None)
    return isinstance(s, (pathlib.PurePath, _io.IOBase)) or (isinstance(fn, type) and issubclass(fn, pathlib.PurePath)) \
        or (isinstance(s, types.ModuleType) and s.__name__ in MODS)


class State:
    def __init__(self):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="dvsym_"))
        self.reg = {}
        self.tok = {}
        self.bykey = {}
        self.files = []

    def put(self, kind, obj):
        k = "DV-%s-%d" % (kind, len(self.reg))
        self.reg[k] = obj
        return k

    def token(self, v):
        t = lift(v)
        for k, x in self.tok.items():
            if x.t is t:
                return k
        k = "SYM%dX" % len(self.tok)
        self.tok[k] = v
        return k

    def close(self):
        for f in self.files:
            try:
                f.close()
            except Exception:
                pass
        shutil.rmtree(self.root, ignore_errors=True)


def cur():
    return ctx().state.get("io")


def enable(interp):
    hook()
    s = State()
    ctx().state["io"] = s
    interp.opener = opener
    interp.dataset = Dataset
    np = interp.np
    np.savez_compressed = np.savez = savez
    np.load = load
    np.savetxt = savetxt
    return s


def disable(interp):
    s = ctx().state.pop("io", None)
    for n in ("savez_compressed", "savez", "load", "savetxt"):
        interp.np.__dict__.pop(n, None)
    if s is not None:
        s.close()


def native(fn, args, kw):
    s = cur()
    GUARD.append(s.root if s is not None else "/nonexistent")
    try:
        return fn(*args, **kw)
    except (OSError, ValueError, UnicodeError) as e:
        from .interp import mark
        raise mark(e)
    finally:
        GUARD.pop()


def opener(*a, **k):
    f = native(open, a, k)
    cur().files.append(f)
    return f


def _write_token(path, tok):
    path = os.fspath(path)

    def w():
        with open(path, "w") as f:
            f.write(tok)
    native(w, (), {})


def _read_token(path):
    path = os.fspath(path)

    def r():
        with open(path, "r") as f:
            return f.read()
    return native(r, (), {})


# ---------------------------------------------------------------- YAML


def unyaml(x):
    s = cur()
    if isinstance(x, str) and s is not None and x in s.tok:
        return s.tok[x]
    if isinstance(x, dict):
        return {unyaml(k): unyaml(v) for k, v in x.items()}
    if isinstance(x, list):
        from .loops import IList
        return IList([unyaml(v) for v in x])
    if isinstance(x, float) and not is_inf(x) and x == x:
        return T.to_fraction(x)
    return x


def yaml_load(stream, Loader=None, *a, **k):
    import yaml
    text = stream if isinstance(stream, (str, bytes)) else stream.read()
    s = cur()
    key = ("yaml", text, Loader)
    cache = ctx().__dict__.setdefault("_yamlcache", {})
    if key not in cache:
        cache[key] = yaml.load(text, Loader=Loader)
    ctx().assumptions.add("PyYAML reads back the scalars written to a YAML file")
    return unyaml(cache[key])


# ---------------------------------------------------------------- npz


def snapshot(v):
    if isinstance(v, Arr):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return type(v)(v)
    return v


class Npz:
    def __init__(self, d):
        self._d = d

    @property
    def files(self):
        return list(self._d)

    def keys(self):
        return list(self._d)

    def __contains__(self, k):
        return k in self._d

    def __getitem__(self, k):
        if k not in self._d:
            from .interp import mark
            raise mark(KeyError("%s is not a file in the archive" % k))
        return snapshot(self._d[k])

    def get(self, k, d=None):
        return self[k] if k in self._d else d

    def items(self):
        return [(k, self[k]) for k in self._d]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def savez(file, *args, **kw):
    d = {"arr_%d" % i: snapshot(v) for i, v in enumerate(args)}
    d.update({k: snapshot(v) for k, v in kw.items()})
    ctx().assumptions.add("numpy.savez / numpy.load reproduce the named arrays, scalars and object arrays exactly")
    p = os.fspath(file)
    if not p.endswith(".npz"):
        p += ".npz"
    _write_token(p, cur().put("NPZ", d))


def load(file, *a, **k):
    t = _read_token(file)
    if t not in cur().reg:
        raise Unsupported("np.load of a foreign file")
    return Npz(cur().reg[t])


def savetxt(file, X, fmt="%s", delimiter=" ", newline="\n", header="", footer="", comments="# ", **k):
    if fmt != "%s":
        raise Unsupported("savetxt format")
    rows = [[str(x) for x in r] for r in X]
    out = (comments + header + newline if header else "") + "".join(delimiter.join(r) + newline for r in rows)
    f = opener(file, "w")
    f.write(out)
    f.close()


# ---------------------------------------------------------------- netCDF


class Dim:
    def __init__(self, name, size):
        self.name, self._un, self.n = name, size is None, lift(0 if size is None else size)

    def isunlimited(self):
        return self._un

    @property
    def size(self):
        return wrap(self.n)

    def dv_len(self):
        return wrap(self.n)

    def __len__(self):
        v = T.constval(self.n)
        if v is None:
            raise Unsupported("len of a symbolic dimension")
        return int(v)


class Attrs:
    """netCDF attributes of an object"""

    def _init(self):
        object.__setattr__(self, "_attrs", {})

    def ncattrs(self):
        return list(self._attrs)

    def getncattr(self, n):
        if n not in self._attrs:
            from .interp import mark
            raise mark(AttributeError(n))
        return self._attrs[n]

    def setncattr(self, n, v):
        self._attrs[n] = v

    setncattr_string = setncattr

    def setncatts(self, d):
        self._attrs.update(d)

    def delncattr(self, n):
        del self._attrs[n]

    def __setattr__(self, n, v):
        if n.startswith("_"):
            object.__setattr__(self, n, v)
        else:
            self._attrs[n] = v

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if n in self._attrs:
            return self._attrs[n]
        from .interp import mark
        raise mark(AttributeError("NetCDF: Attribute not found: %s" % n))


FILL = Fraction(9969209968386869) * 10 ** 21


class Var(Attrs):
    def __init__(self, store, name, dt, dims):
        self._init()
        self._s, self._name = store, name
        d = dt if isinstance(dt, str) else getattr(dt, "str_", None) or str(dt)
        if d in ("f4", "f8", "float32", "float64", "f", "d"):
            self._k = "f"
        elif d in ("i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "int64", "int32", "i"):
            self._k = "i"
        else:
            raise Unsupported("netCDF type %s" % (d,))
        self._dt = d
        if isinstance(dims, str):
            dims = (dims,)
        dims = tuple(dims)
        for x in dims:
            if x not in store.dims:
                from .interp import mark
                raise mark(ValueError("cannot find dimension %s in this group or parent groups" % x))
        self._dims = dims
        fill = lift(FILL) if self._k == "f" else lift(-9223372036854775806)
        self._fn = lambda ix: fill

    @property
    def name(self):
        return self._name

    @property
    def dimensions(self):
        return self._dims

    @property
    def datatype(self):
        return self._dt

    dtype = datatype

    @property
    def ndim(self):
        return len(self._dims)

    @property
    def shape(self):
        return tuple(wrap(self._s.dims[d].n) for d in self._dims)

    def dv_len(self):
        return self.shape[0]

    def _conv(self, t):
        return T.tosort(T.as_num(t), "R") if self._k == "f" else T.tosort(T.trunc(T.as_num(t)), "I")

    def _key(self, k):
        k = k if isinstance(k, tuple) else (k,)
        if any(x is Ellipsis for x in k):
            i = [x is Ellipsis for x in k].index(True)
            k = k[:i] + (slice(None),) * (len(self._dims) - len(k) + 1) + k[i + 1:]
        if len(self._dims) == 0:
            return ()
        k = k + (slice(None),) * (len(self._dims) - len(k))
        out = []
        for d, x in zip(self._dims, k):
            dim = self._s.dims[d]
            if isinstance(x, slice):
                if x.step not in (None, 1):
                    raise Unsupported("netCDF slice")
                lo, hi = x.start, x.stop
                if lo in (None, 0) and hi is None:
                    out.append(None)
                    continue
                if hi is not None and lo is not None:
                    one = lift(hi - lo)
                    if T.constval(one) == 1:
                        out.append(("keep", self._ix(dim, lo)))
                        continue
                raise Unsupported("netCDF slice")
            else:
                out.append(self._ix(dim, x))
        return tuple(out)

    def _ix(self, dim, x):
        t = lift(x)
        v = T.constval(t)
        if v is not None and v < 0:
            t = T.add(dim.n, t)
        elif v is None and not ctx().entails(T.le(T.num(0), t), 2):
            raise Unsupported("netCDF index sign")
        return t

    def __setitem__(self, k, v):
        s = self._s
        s.check_open(write=True)
        s.synced = False
        key = self._key(k)
        dims = [s.dims[d] for d in self._dims]
        free = [i for i, x in enumerate(key) if x is None or isinstance(x, tuple)]
        fixed = {i: (x[1] if isinstance(x, tuple) else x) for i, x in enumerate(key) if x is not None}
        c = ctx()
        for i, t in fixed.items():
            if dims[i]._un:
                dims[i].n = T.max_(dims[i].n, T.add(t, T.num(1)))
                if c.entails(T.eq(dims[i].n, T.add(t, T.num(1))), 1):
                    dims[i].n = T.add(t, T.num(1))
            elif not c.entails(T.lt(t, dims[i].n), 2):
                raise Unsupported("netCDF index range")
        old = self._fn
        if v is None:
            # netCDF4 stores NaN, and starts an empty record dimension with one such record
            if len(free) == 1 and not fixed and dims[free[0]]._un and self._k == "f":
                d = dims[free[0]]
                if c.entails(T.eq(d.n, T.num(0)), 1):
                    d.n = T.num(1)
                v = wrap(c.fresh("nan", "R"))
            else:
                raise Unsupported("writing None to a netCDF variable")
        if isinstance(v, (list, tuple)) or isinstance(v, Arr):
            from . import npshim
            a = npshim.asarr(v)
            # leading unit axes from slices of length one
            vs, g = list(a._shape), a.getter()
            if len(vs) > len(free):
                raise Unsupported("netCDF rank of the stored value")
            off = len(free) - len(vs)
            bc = {}
            for j, n in enumerate(vs):
                i = free[off + j]
                d = dims[i]
                if i in fixed:
                    if not c.entails(T.eq(n, T.num(1)), 2):
                        raise Unsupported("netCDF shape of the stored value")
                elif d._un:
                    d.n = n if c.entails(T.le(d.n, n), 2) else T.max_(d.n, n)
                    bc[i] = n
                elif T.constval(n) == 1 and T.constval(d.n) != 1:
                    bc[i] = None
                elif not c.entails(T.eq(n, d.n), 2):
                    raise Unsupported("netCDF shape of the stored value")

            def val(ix):
                return g(tuple(T.num(0) if (free[off + j] in fixed or bc.get(free[off + j], 0) is None) else ix[free[off + j]]
                               for j in range(len(vs))))
            limit = {i: n for i, n in bc.items() if n is not None}
        else:
            t0 = lift(v)
            val = lambda ix: t0
            limit = {i: dims[i].n for i in free if dims[i]._un and i not in fixed}

        def fn(ix):
            conds = [T.eq(ix[i], t) for i, t in fixed.items()] + [T.lt(ix[i], n) for i, n in limit.items()]
            cnd = T.and_(*conds) if conds else T.TRUE
            cnd = c.simp(cnd) if cnd.op != "bc" else cnd
            if cnd.op == "bc":
                return self._conv(val(ix)) if cnd.args[0] else old(ix)
            return T.ite(cnd, self._conv(val(ix)), old(ix))
        self._fn = fn

    def _get(self, ix):
        return self._fn(tuple(ix))

    def __getitem__(self, k):
        self._s.check_open()
        key = self._key(k)
        if not self._dims:
            return wrap(self._fn(()))
        free = [i for i, x in enumerate(key) if x is None or isinstance(x, tuple)]
        f = self._fn
        if not free:
            return wrap(f(key))
        sh = tuple(T.num(1) if isinstance(key[i], tuple) else self._s.dims[self._dims[i]].n for i in free)

        def get(ix):
            full = [x[1] if isinstance(x, tuple) else x for x in key]
            for j, i in enumerate(free):
                full[i] = T.add(key[i][1], ix[j]) if isinstance(key[i], tuple) else ix[j]
            return f(tuple(full))
        return new_arr(sh, self._k, get)


class Store:
    """contents of one netCDF file"""

    def __init__(self):
        self.dims, self.groups, self.variables, self.attrs = {}, {}, {}, {}
        self.synced = True
        self.handles = 0

    def check_open(self, write=False):
        if self.handles == 0:
            from .interp import mark
            raise mark(RuntimeError("NetCDF: Not a valid ID"))


class Group(Attrs):
    def __init__(self, store, name):
        self._init()
        self._store, self._name = store, name
        self._vars = {}

    variables = property(lambda s: s._vars)
    groups = property(lambda s: {})
    name = property(lambda s: s._name)
    dimensions = property(lambda s: {})

    def __getitem__(self, k):
        return self._vars[k]

    def createVariable(self, n, dt="f4", dims=(), **k):
        v = self._vars[n] = Var(self._store, n, dt, dims)
        return v


class Dataset(Attrs):
    def __init__(self, filename, mode="r", clobber=True, format="NETCDF4", **kw):
        self._init()
        from .interp import mark
        ctx().assumptions.add("netCDF4: a stored variable, dimension or attribute is read back as written "
                              "(32-bit rounding is treated as exact)")
        if kw:
            raise Unsupported("netCDF4.Dataset options %s" % sorted(kw))
        p = os.fspath(filename)
        if mode in ("w", "x"):
            if (mode == "x" or not clobber) and os.path.exists(p):
                raise mark(OSError("file exists"))
            st = Store()
            _write_token(p, cur().put("NC", st))
        else:
            if not os.path.isfile(p):
                raise mark(FileNotFoundError(2, "No such file or directory", p))
            t = _read_token(p)
            if t not in cur().reg:
                raise mark(OSError(-51, "NetCDF: Unknown file format", p))
            st = cur().reg[t]
        self._store, self._mode, self._open = st, mode, True
        st.handles += 1
        object.__setattr__(self, "_attrs", st.attrs)
        self._path = p

    variables = property(lambda s: s._chk().variables)
    groups = property(lambda s: s._chk().groups)
    dimensions = property(lambda s: s._chk().dims)

    def _chk(self):
        if not self._open:
            from .interp import mark
            raise mark(RuntimeError("NetCDF: Not a valid ID"))
        return self._store

    def createDimension(self, n, size=None):
        st = self._chk()
        if n in st.dims:
            from .interp import mark
            raise mark(RuntimeError("NetCDF: String match to name in use"))
        d = st.dims[n] = Dim(n, size)
        return d

    def createGroup(self, n):
        st = self._chk()
        if n not in st.groups:
            st.groups[n] = Group(st, n)
        return st.groups[n]

    def createVariable(self, name, dt="f4", dims=(), **k):
        st = self._chk()
        if set(k) - {"zlib", "complevel", "fill_value"}:
            raise Unsupported("netCDF createVariable options")
        if "/" in name:
            g, n = name.strip("/").split("/")
            return self.createGroup(g).createVariable(n, dt, dims)
        if name in st.variables:
            from .interp import mark
            raise mark(RuntimeError("NetCDF: String match to name in use"))
        v = st.variables[name] = Var(st, name, dt, dims)
        return v

    def __getitem__(self, k):
        st = self._chk()
        if "/" in k:
            g, n = k.strip("/").split("/")
            return st.groups[g][n]
        if k in st.groups:
            return st.groups[k]
        if k in st.variables:
            return st.variables[k]
        from .interp import mark
        raise mark(IndexError("%s not found in /" % k))

    def isopen(self):
        return self._open

    def filepath(self):
        return self._path

    def set_auto_mask(self, *a):
        pass

    set_auto_maskandscale = set_auto_scale = set_always_mask = set_auto_mask

    def sync(self):
        self._chk().synced = True

    def close(self):
        self._chk()
        self._store.synced = True
        self._store.handles -= 1
        self._open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self._open:
            self.close()
        return False
