"""Contract of RTAModule.filter_control for every kind of module."""
import numpy as np
import jax.numpy as jnp
from collections import OrderedDict
from spec_common import *
from spec_asif import EA
from spec_kinds import make, KINDS
from run_time_assurance.utils import SolverError


class Any(RTAModule):
    """any filter at all"""

    def compute_filtered_control(self, input_state, step_size, control_desired):
        self.intervening = UFBOOL("iv", input_state, step_size, control_desired)
        return UFVEC("k", 2, input_state, step_size, control_desired)


class Echo(RTAModule):
    """returns the very object it was given"""

    def compute_filtered_control(self, input_state, step_size, control_desired):
        return control_desired


class Leaky(RTAModule):
    """returns a long-lived internal buffer"""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.buf = ARR("b", 2)

    def compute_filtered_control(self, input_state, step_size, control_desired):
        return self.buf


class AnyJax(RTAModule):
    """returns an immutable jax array"""

    def compute_filtered_control(self, input_state, step_size, control_desired):
        return UFVEC("k", 2, input_state, step_size, control_desired)


def in_bounds(label, out, lo, hi):
    for i in range(2):
        if lo is not None:
            CHECK(label + " >= low", out[i] >= (lo[i] if hasattr(lo, "shape") else lo))
        if hi is not None:
            CHECK(label + " <= high", out[i] <= (hi[i] if hasattr(hi, "shape") else hi))


def any_bounds(bnd):
    lo, hi = bounds(bnd)
    m = Any(control_bounds_low=lo, control_bounds_high=hi)
    x, u = ARR("x", 2), ARR("u", 2)
    out = m.filter_control(x, SYM("dt"), u)
    if bnd == "list":
        lo, hi = ARR("lo", 2), ARR("hi", 2)
    in_bounds("output", out, lo, hi)
    in_bounds("logged control_actual", m.control_actual, lo, hi)
    k = UFVEC("k", 2, VEC("x", 2), SYM("dt"), VEC("u", 2))
    CHECK_EQ("saturation alters nothing else", out, clip(k, lo, hi))
    out2 = m.filter_control(ARR("y", 2), SYM("dt2"), ARR("v", 2))
    in_bounds("second output", out2, lo, hi)


def kind_bounds(kind, bnd, jit, prior=0):
    lo, hi = bounds(bnd)
    m = make(kind, lo, hi, jit)
    warm(m, prior, POS("dt"))
    out = m.filter_control(ARR("x", 2), POS("dt"), ARR("u", 2))
    if bnd == "list":
        lo, hi = ARR("lo", 2), ARR("hi", 2)
    in_bounds("output", out, lo, hi)
    out2 = m.filter_control(ARR("y", 2), POS("dt"), ARR("v", 2))
    in_bounds("second output", out2, lo, hi)


def any_disabled():
    lo, hi = bounds("both")
    m = Any(control_bounds_low=lo, control_bounds_high=hi)
    m.enable = BOOLSYM("en")
    u = ARR("u", 2)
    out = m.filter_control(ARR("x", 2), SYM("dt"), u)
    if not m.enable:
        CHECK_EQ("disabled: control passes through unchanged", out, VEC("u", 2))
        CHECK_EQ("disabled: control_actual is the desired control", m.control_actual, VEC("u", 2))
        CHECK_EQ("disabled: not intervening", m.intervening, False)
    else:
        CHECK_EQ("enabled: filter applied", out, clip(UFVEC("k", 2, VEC("x", 2), SYM("dt"), VEC("u", 2)), lo, hi))
    CHECK_EQ("control_desired logged", m.control_desired, VEC("u", 2))
    CHECK_EQ("control_actual logged", m.control_actual, out)


def kind_disabled(kind, jit, prior=0):
    lo, hi = bounds("both")
    m = make(kind, lo, hi, jit)
    warm(m, prior, POS("dt"))
    m.filter_control(ARR("y", 2), POS("dt"), ARR("v", 2))
    m.enable = False
    CLEAR_EVENTS()
    out = m.filter_control(ARR("x", 2), POS("dt"), ARR("u", 2))
    CHECK_EQ("disabled: control passes through unchanged", out, VEC("u", 2))
    CHECK_EQ("disabled: not intervening", m.intervening, False)
    CHECK_EQ("disabled: no warning", COUNT(EVENTS("warn")), 0)
    info = m.generate_info()
    CHECK_EQ("disabled: info enable", info["enable"], False)
    CHECK_EQ("disabled: info intervening", info["intervening"], False)
    CHECK_EQ("disabled: info control_desired", info["control_desired"], VEC("u", 2))
    CHECK_EQ("disabled: info control_actual", info["control_actual"], VEC("u", 2))


def alias_check(m, label):
    x, u = ARR("x", 2), ARR("u", 2)
    out = m.filter_control(x, POS("dt"), u)
    CHECK_EQ(label + ": state input not mutated", x, VEC("x", 2))
    CHECK_EQ(label + ": control input not mutated", u, VEC("u", 2))
    keep = 1 * out
    CHECK(label + ": output does not share storage with the desired control", not ALIAS(out, u))
    CHECK(label + ": output does not share storage with the state", not ALIAS(out, x))
    info = m.generate_info()
    u[0] = SYM("dirty0")
    u[1] = SYM("dirty1")
    x[0] = SYM("dirty2")
    CHECK_EQ(label + ": output unaffected by later writes to the inputs", out, keep)
    CHECK_EQ(label + ": logged desired control unaffected by later writes to the inputs", m.generate_info()["control_desired"], VEC("u", 2))
    CHECK_EQ(label + ": logged actual control unaffected by later writes to the inputs", m.generate_info()["control_actual"], keep)
    out[0] = SYM("dirty3")
    CHECK_EQ(label + ": logged actual control unaffected by writes to the returned array", m.generate_info()["control_actual"], keep)
    CHECK_EQ(label + ": logged desired control unaffected by writes to the returned array", m.generate_info()["control_desired"], VEC("u", 2))
    return keep


def any_alias(which, bnd, en):
    lo, hi = bounds(bnd)
    if which == "any":
        m = Any(control_bounds_low=lo, control_bounds_high=hi)
    elif which == "echo":
        m = Echo(control_bounds_low=lo, control_bounds_high=hi)
    elif which == "leaky":
        m = Leaky(control_bounds_low=lo, control_bounds_high=hi)
    else:
        m = AnyJax(control_bounds_low=lo, control_bounds_high=hi)
    m.enable = en
    alias_check(m, which)
    if which == "leaky":
        CHECK_EQ("internal buffer of the filter not mutated", m.buf, VEC("b", 2))
    if lo is not None:
        CHECK_EQ("bounds not mutated", m.control_bounds_low, VEC("lo", 2))


def kind_alias(kind, bnd, jit, prior=0):
    lo, hi = bounds(bnd)
    m = make(kind, lo, hi, jit)
    warm(m, prior, POS("dt"))
    alias_check(m, kind)
    if lo is not None:
        CHECK_EQ("lower bounds not mutated", lo, VEC("lo", 2))
    if hi is not None:
        CHECK_EQ("upper bounds not mutated", hi, VEC("hi", 2))


def same_info(label, a, b):
    for k in b.keys():
        CHECK(label + ": info has " + k, k in a)
        if k in a:
            CHECK_EQ(label + ": info " + k, a[k], b[k])
    CHECK_EQ(label + ": number of info entries", len(a), len(b))


def reset_fresh(kind, jit, steps, prior=0):
    """after reset() the module behaves like a newly built one, whatever happened before"""
    lo, hi = bounds("both")
    m = make(kind, lo, hi, jit)
    n = make(kind, lo, hi, jit)
    warm(m, prior, POS("dt"))
    m.filter_control(ARR("y", 2), POS("dt"), ARR("v", 2))
    if steps > 1:
        m.filter_control(ARR("z", 2), POS("dt"), ARR("w", 2))
    m.enable = False
    for r in getattr(m, "rta_list", []):
        r.enable = False
    m.reset()
    CHECK_EQ("reset enables the module", m.enable, True)
    for k in range(len(getattr(m, "rta_list", []))):
        CHECK_EQ("reset enables member " + str(k), m.rta_list[k].enable, True)
        CHECK_EQ("reset clears intervening of member " + str(k), m.rta_list[k].intervening, False)
        same_info("member " + str(k) + " after reset", m.rta_list[k].generate_info(), n.rta_list[k].generate_info())
    CHECK_EQ("reset clears intervening", m.intervening, False)
    same_info("after reset", m.generate_info(), n.generate_info())
    CLEAR_EVENTS()
    a = m.filter_control(ARR("x", 2), POS("dt"), ARR("u", 2))
    CLEAR_EVENTS()
    b = n.filter_control(ARR("x", 2), POS("dt"), ARR("u", 2))
    CHECK_EQ("first control after reset", a, b)
    CHECK_EQ("intervening after reset", m.intervening, n.intervening)
    same_info("first step after reset", m.generate_info(), n.generate_info())
    a = m.filter_control(ARR("p", 2), POS("dt"), ARR("q", 2))
    b = n.filter_control(ARR("p", 2), POS("dt"), ARR("q", 2))
    CHECK_EQ("second control after reset", a, b)
    CHECK_EQ("second intervening after reset", m.intervening, n.intervening)


def logged(kind, jit, prior=0):
    """generate_info describes the latest call"""
    lo, hi = bounds("both")
    m = make(kind, lo, hi, jit)
    warm(m, prior, POS("dt"))
    m.filter_control(ARR("y", 2), POS("dt"), ARR("v", 2))
    out = m.filter_control(ARR("x", 2), POS("dt"), ARR("u", 2))
    i = m.generate_info()
    CHECK_EQ("info control_desired", i["control_desired"], VEC("u", 2))
    CHECK_EQ("info control_actual", i["control_actual"], out)
    CHECK_EQ("info enable", i["enable"], True)
    CHECK_EQ("info intervening", i["intervening"], m.intervening)


def bounds_changed(kind, jit, first):
    """bounds set on the module after construction are the ones in force"""
    lo, hi = bounds("both")
    m = make(kind, ARR("lo0", 2) if first else None, ARR("hi0", 2) if first else None, jit)
    m.filter_control(ARR("y", 2), POS("dt"), ARR("v", 2))
    m.control_bounds_low = lo
    m.control_bounds_high = hi
    in_bounds("output", m.filter_control(ARR("x", 2), POS("dt"), ARR("u", 2)), lo, hi)
