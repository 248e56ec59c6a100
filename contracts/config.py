"""C19 configuration precedence, accepted types and documented ranges."""
import os

from .common import *

# documented parameters (docs: reference/model/yaml_defaults): name, accepted types, default
TABLE = [
    ('out_dir', ('str',), 'deltaRCM_Output'),
    ('verbose', ('int',), 0),
    ('seed', ('int', 'None'), None),
    ('Length', ('float', 'int'), 5000.0),
    ('Width', ('float', 'int'), 10000.0),
    ('dx', ('float', 'int'), 50.0),
    ('L0_meters', ('float', 'int'), 150.0),
    ('S0', ('float', 'int'), 0.00015),
    ('itermax', ('int',), 3),
    ('Np_water', ('int',), 2000),
    ('u0', ('float', 'int'), 1.0),
    ('N0_meters', ('float', 'int'), 250.0),
    ('h0', ('float', 'int'), 5.0),
    ('hb', ('float', 'int', 'None'), None),
    ('H_SL', ('float', 'int'), 0.0),
    ('SLR', ('float', 'int'), 0.0),
    ('Np_sed', ('int',), 2000),
    ('f_bedload', ('float', 'int'), 0.5),
    ('active_layer_thickness', ('float', 'int', 'None'), None),
    ('C0_percent', ('float', 'int'), 0.1),
    ('Csmooth', ('float', 'int'), 0.9),
    ('toggle_subsidence', ('bool',), False),
    ('subsidence_rate', ('float', 'int'), 2e-9),
    ('start_subsidence', ('float', 'int'), 216000),
    ('save_eta_figs', ('bool',), False),
    ('save_stage_figs', ('bool',), False),
    ('save_depth_figs', ('bool',), False),
    ('save_discharge_figs', ('bool',), False),
    ('save_velocity_figs', ('bool',), False),
    ('save_sedflux_figs', ('bool',), False),
    ('save_sandfrac_figs', ('bool',), False),
    ('save_figs_sequential', ('bool',), True),
    ('save_metadata', ('bool',), False),
    ('save_eta_grids', ('bool',), False),
    ('save_stage_grids', ('bool',), False),
    ('save_depth_grids', ('bool',), False),
    ('save_discharge_grids', ('bool',), False),
    ('save_velocity_grids', ('bool',), False),
    ('save_sedflux_grids', ('bool',), False),
    ('save_sandfrac_grids', ('bool',), False),
    ('save_discharge_components', ('bool',), False),
    ('save_velocity_components', ('bool',), False),
    ('save_dt', ('int',), 86400),
    ('checkpoint_dt', ('int', 'None'), None),
    ('save_checkpoint', ('bool',), False),
    ('resume_checkpoint', ('bool', 'str'), False),
    ('omega_sfc', ('float', 'int'), 0.1),
    ('omega_flow', ('float', 'int'), 0.9),
    ('Nsmooth', ('int',), 10),
    ('theta_water', ('float', 'int'), 1.0),
    ('coeff_theta_sand', ('float', 'int'), 2.0),
    ('coeff_theta_mud', ('float', 'int'), 1.0),
    ('beta', ('int',), 3),
    ('sed_lag', ('float', 'int'), 1.0),
    ('coeff_U_dep_mud', ('float', 'int'), 0.3),
    ('coeff_U_ero_mud', ('float', 'int'), 1.5),
    ('coeff_U_ero_sand', ('float', 'int'), 1.05),
    ('alpha', ('float', 'int'), 0.1),
    ('stepmax', ('float', 'int', 'None'), None),
    ('sand_frac_bc', ('float', 'int'), 0),
    ('clobber_netcdf', ('bool',), False),
    ('legacy_netcdf', ('bool',), False),
]

DEFAULT = {k: d for k, t, d in TABLE}

# documented ranges: value -> condition (c, value, Length, Width)
RANGE = {
    "Length": lambda c, v: v > 0,
    "Width": lambda c, v: v > 0,
    "dx": lambda c, v: v > 0,
    "L0_meters": lambda c, v: v >= 0,
    "itermax": lambda c, v: v >= 0,
    "Np_water": lambda c, v: v > 0,
    "N0_meters": lambda c, v: v > 0,
    "If": lambda c, v: c.And(v > 0, v <= 1),
    "Np_sed": lambda c, v: v > 0,
    "f_bedload": lambda c, v: c.And(v >= 0, v <= 1),
    "active_layer_thickness": lambda c, v: v >= 0,
    "C0_percent": lambda c, v: v >= 0,
    "Csmooth": lambda c, v: v >= 0,
}


def value(c, tag, name="v", valid=False):
    if tag == "int":
        return c.int(name, hint=(1, 9) if valid else (-3, 5), pts=[] if valid else [0, 1, -1, 20000])
    if tag == "float":
        return c.real(name, hint=(2, 9) if name in ("Length", "Width") else (0.125, 1) if valid else (-2, 3),
                      pts=[1] if valid else [0, 1, -1, 0.5, 20000.5])
    return {"str": "abc", "bool": True, "None": None, "list": [1, 2]}[tag]


def same(c, a, b):
    if a is None or b is None or isinstance(a, (str, list)) or isinstance(b, (str, list)):
        return type(a) is type(b) and a == b
    if isinstance(b, bool):
        return a is b if not c.sym else c.eq(a, b)
    return c.eq(a, b)


def fresh(c):
    m = c.base()
    for k, t, d in TABLE:
        for n in ("_" + k, k):
            m.__dict__.pop(n, None)
    for n in ("_input_file_vars", "_netcdf_coords"):
        m.__dict__.pop(n, None)
    src = os.path.dirname(c.module("model").__file__)
    c.set(m, default_file=os.path.join(src, "default.yml"), input_file=None, subclass_parameters={},
          _save_fig_list={}, _save_var_list={"meta": {}}, _verbose=0, prefix=c.scratch())
    return m


def configure(c, m, kw):
    r, e = c.attempt(m.import_files, dict(kw))
    if e is None:
        r, e = c.attempt(m.process_input_to_model)
    return e


def expect_all(c, m, given):
    """every documented parameter has the given value, or its default"""
    for k, t, d in TABLE:
        v = given.get(k, d)
        if k == "active_layer_thickness" and v is None:
            v = given.get("h0", DEFAULT["h0"])
            c.prove("default-of-%s" % k, c.eq(getattr(m, k) * 2, v))
            continue
        if k == "checkpoint_dt" and v is None:
            v = given.get("save_dt", DEFAULT["save_dt"])
        if k == "resume_checkpoint" and isinstance(v, str):
            v = True  # a folder to resume from switches resuming on
        if not hasattr(m, k):
            c.fail("parameter-%s-is-an-attribute" % k)
        c.prove(("value-of-" if k in given else "default-of-") + k, same(c, getattr(m, k), v))


def in_range(c, given):
    L, W = given.get("Length", DEFAULT["Length"]), given.get("Width", DEFAULT["Width"])
    dx = given.get("dx", DEFAULT["dx"])
    ok = [c.And(dx <= L, dx <= W)]
    for k, v in given.items():
        if k in RANGE and v is not None:
            ok.append(RANGE[k](c, v))
    return c.And(*ok)


@goal("C19", "parameter", n=600, budget=300, conc_budget=60)
def parameter(c):
    i = c.choice("key", list(range(len(TABLE))))
    key, types, default = TABLE[i]
    tag = c.choice("type", ["int", "float", "str", "bool", "None", "list"])
    where = c.choice("where", ["keyword", "file", "both", "neither"])
    m = fresh(c)
    kw, given = {}, {}
    v = value(c, tag)
    if where in ("file", "both"):
        d = c.scratch()
        p = os.path.join(d, "in.yml")
        # a keyword overrides whatever the file says
        c.write_yaml(p, {key: v if where == "file" else [0, "other"], "omega_sfc" if key != "omega_sfc" else "alpha": 0.25})
        given["omega_sfc" if key != "omega_sfc" else "alpha"] = 0.25
        c.set(m, input_file=p)
    if where in ("keyword", "both"):
        kw[key] = v
    if where != "neither":
        given[key] = v
    e = configure(c, m, kw)
    okt = where == "neither" or tag in types
    if e is not None:
        c.prove("rejected-with-TypeError-or-ValueError", isinstance(e, (TypeError, ValueError)))
        if okt:
            c.prove("accepted-type-not-rejected", not isinstance(e, TypeError))
            c.prove("in-range-value-not-rejected", c.Not(in_range(c, given)))
        return
    c.prove("wrong-type-rejected", okt)
    if not okt:
        return
    c.prove("out-of-range-rejected", in_range(c, given))
    expect_all(c, m, given)


@goal("C19", "all_parameters_given", n=60, budget=120)
def all_given(c):
    """every parameter at once, half from the file and half by keyword"""
    par = c.choice("parity", [0, 1])
    m = fresh(c)
    given = {}
    for k, types, d in TABLE:
        t = "float" if "float" in types else types[0]
        v = {"str": "abc", "bool": not d if isinstance(d, bool) else True}.get(t)
        if v is None:
            v = value(c, t, k, True)
        if k == "resume_checkpoint":
            v = False
        given[k] = v
    given["out_dir"] = "xyz"
    d = c.scratch()
    p = os.path.join(d, "in.yml")
    keys = list(given)
    c.write_yaml(p, {k: given[k] for n, k in enumerate(keys) if n % 2 == par})
    c.set(m, input_file=p)
    c.assume(in_range(c, given))
    e = configure(c, m, {k: given[k] for n, k in enumerate(keys) if n % 2 != par})
    c.prove("valid-configuration-accepted", e is None)
    if e is None:
        expect_all(c, m, given)


@goal("C19", "subclass_parameter", n=150, budget=60)
def subclass_parameter(c):
    types = c.choice("declared", [["int"], ["float", "int"], ["str"], ["bool"], ["int", "None"]])
    tag = c.choice("type", ["int", "float", "str", "bool", "None", "list"])
    where = c.choice("where", ["keyword", "file", "both", "neither"])
    m = fresh(c)
    c.set(m, subclass_parameters={"my_param": {"type": list(types), "default": 7}})
    v = value(c, tag)
    kw = {}
    if where in ("file", "both"):
        p = os.path.join(c.scratch(), "in.yml")
        c.write_yaml(p, {"my_param": v if where == "file" else [3]})
        c.set(m, input_file=p)
    if where in ("keyword", "both"):
        kw["my_param"] = v
    e = configure(c, m, kw)
    okt = where == "neither" or tag in types
    c.prove("wrong-type-rejected", okt == (e is None))
    if e is not None:
        c.prove("rejected-with-TypeError", isinstance(e, TypeError))
        return
    c.prove("custom-parameter-value", same(c, m.my_param, 7 if where == "neither" else v))
    expect_all(c, m, {})


def _setter(name, extra=None):
    @goal("C19", "later_" + name, n=100)
    def g(c, name=name):
        """assigning to the model attribute enforces the same range"""
        m = c.base()
        old = c.real("old", pos=True)
        c.set(m, _Length=c.real("Length", pos=True, hint=(1, 9)), _Width=c.real("Width", pos=True, hint=(1, 9)),
              _h0=c.real("h0", pos=True))
        if name not in ("Length", "Width"):
            c.set(m, **{"_" + name: old})
        v = c.real("v", hint=(-2, 10), pts=[0, 1, -1, 1.5])
        r, e = c.attempt(setattr, m, name, v) if not c.sym else c.attempt(c.interp.callmap[setattr], m, name, v)
        ok = RANGE[name](c, v)
        if name == "dx":
            ok = c.And(ok, v <= m._Length, v <= m._Width)
        c.prove("rejected-iff-out-of-range", c.Iff(ok, e is None))
        if e is None:
            c.prove("stored", c.eq(getattr(m, name), v))
        else:
            c.prove("ValueError", isinstance(e, ValueError))
    return g


for _n in ("L0_meters", "If", "f_bedload", "active_layer_thickness", "Csmooth", "dx", "Length", "Width", "N0_meters"):
    _setter(_n)


@goal("C19", "number_notation", sym=False, n=200, bounded="YAML is parsed by PyYAML; numbers of up to 4 digits, exponents -9..9, sampled")
def number_notation(c):
    """a number in an input file has its value in any notation, with or without a decimal point or exponent"""
    m = fresh(c)
    sign = c.choice("sign", ["", "-", "+"])
    mant = c.choice("mantissa", ["1", "25", "0.5", "3.", ".75", "12.125", "1_000.5", "0.0", "2"])
    exp = c.choice("exponent", ["", "e-5", "E3", "e+2", "e0", "E-9"])
    txt = (sign if mant[0] != "." else "") + mant + exp  # YAML 1.1: no sign before a leading point
    p = os.path.join(c.scratch(), "in.yml")
    with open(p, "w") as f:
        f.write("H_SL: %s\nSLR: 0.5\n" % txt)
    c.set(m, input_file=p)
    e = configure(c, m, {})
    c.prove("number-accepted", e is None)
    if e is None:
        c.prove("value", m.H_SL == float(txt.replace("_", "")))
        c.prove("value-of-the-next", m.SLR == 0.5)
    pp = c.fn("preprocessor", "BasePreprocessor")
    d = c.call(pp._open_yaml, None, p)
    c.prove("value-for-the-preprocessor", type(d["H_SL"]) in (int, float) and d["H_SL"] == float(txt.replace("_", "")))
