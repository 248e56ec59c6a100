"""Registry shared by the deductive back end (symc) and the concrete replay back
end (conc).  Contracts are written once, against the small interface `c`."""


class Skip(Exception):
    """the contract does not attach to this tree (anchor gone, signature changed)"""


class Discard(Exception):
    """concrete sample does not satisfy the precondition"""


class Violation(Exception):
    def __init__(self, name, detail=""):
        Exception.__init__(self, "%s: %s" % (name, detail))
        self.name, self.detail = name, detail


class Goal:
    def __init__(self, pid, name, fn, loops=None, sym=True, conc=True, n=200, jit=False,
                 budget=60, bounded=None, functions=(), assumes=(), thorough_only=False, maxpaths=None,
                 finding=None, conc_budget=None):
        self.pid, self.name, self.fn = pid, name, fn
        self.loops = loops or {}
        self.sym, self.conc, self.n, self.jit = sym, conc, n, jit
        self.budget, self.bounded = budget, bounded
        self.functions, self.assumes = tuple(functions), tuple(assumes)
        self.thorough_only = thorough_only
        self.maxpaths = maxpaths
        self.conc_budget = conc_budget

    @property
    def key(self):
        return self.pid + "." + self.name


GOALS = {}


def goal(pid, name=None, **kw):
    def dec(fn):
        g = Goal(pid, name or fn.__name__, fn, **kw)
        if g.key in GOALS:
            raise AssertionError("duplicate goal " + g.key)
        GOALS[g.key] = g
        return fn

    return dec


class Loop:
    """loop invariant candidate of a function: holds at every head of a loop at the
    given nesting depth (1 = outermost)"""

    def __init__(self, depth, cid, fn, auto=True):
        """auto=False: do not guess value bounds of the loop's variables besides fn"""
        self.depth, self.cid, self.fn, self.auto = depth, cid, fn, auto


def load_all():
    import importlib
    import os
    import contracts

    d = os.path.dirname(contracts.__file__)
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("contracts." + f[:-3])
    return GOALS
