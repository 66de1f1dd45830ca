"""Run-time changes of parameters and enabled flags; logged constraint values; constraint selection; jit agreement; composition."""
import numpy as np
import jax.numpy as jnp
from collections import OrderedDict
from spec_common import *
from spec_asif import EA
from spec_kinds import ES, IS, IA, DA, CA
from run_time_assurance.constraint import HOCBFConstraint


def mk(kind, cons, direct, jit, jint=False, dt=None, window=1, lo=None, hi=None, **kw):
    dt = POS("dt") if dt is None else dt
    if kind == "explicit_simplex":
        return ES(cons, backup_controller=Backup(jit_enable=jit), jit_enable=jit, control_bounds_low=lo, control_bounds_high=hi, **kw)
    if kind == "implicit_simplex":
        return IS(cons, backup_window=window * dt, backup_controller=Backup(jit_enable=jit), jit_enable=jit, control_bounds_low=lo, control_bounds_high=hi,
                  jit_compile_dict={"integrate": jint, "pred_state": jint}, **kw)
    if kind == "explicit_asif":
        return EA(cons, direct, jit_enable=jit, control_bounds_low=lo, control_bounds_high=hi, **kw)
    if kind == "implicit_asif":
        return IA(cons, direct, backup_window=window * dt, backup_controller=Backup(jit_enable=jit), jit_enable=jit, control_bounds_low=lo, control_bounds_high=hi,
                  jit_compile_dict={"integrate": jint, "pred_state": jint}, **kw)
    return DA(cons, jit_enable=jit, control_bounds_low=lo, control_bounds_high=hi, **kw)


def compare(m, n, dt, tag):
    a = m.filter_control(ARR("x", 2), dt, ARR("u", 2))
    CLEAR_EVENTS()
    b = n.filter_control(ARR("x", 2), dt, ARR("u", 2))
    CHECK_EQ(tag + ": control", a, b)
    CHECK_EQ(tag + ": intervening", m.intervening, n.intervening)
    i, j = m.generate_info(), n.generate_info()
    for k in j.keys():
        CHECK(tag + ": info has " + k, k in i)
        if k in i:
            CHECK_EQ(tag + ": info " + k, i[k], j[k])


def change(kind, jit, what, jint):
    """a change of parameters or enabled flags after a first call takes full effect on the next call"""
    dt = POS("dt")
    e1, e2 = BOOLSYM("en1"), BOOLSYM("en2")
    asif = kind == "explicit_asif" or kind == "implicit_asif"
    m = mk(kind, [H("h1", enabled=e1), H("h2", enabled=e2)], [Direct("d1", 2)], jit, jint)
    m.filter_control(ARR("y", 2), dt, ARR("v", 2))
    c1, c2 = m.constraints["h1"], m.constraints["h2"]
    p1, f1, f2, fd = "p_h1", e1, e2, True
    if what == "item":
        c1.params["p"] = SYM("newp")
        p1 = "newp"
    if what == "replace":
        c1.params = {"p": SYM("newp")}
        p1 = "newp"
    if what == "enabled":
        c1.enabled = BOOLSYM("nen1")
        c2.enabled = BOOLSYM("nen2")
        f1, f2 = BOOLSYM("nen1"), BOOLSYM("nen2")
    d = Direct("d1", 2)
    if what == "direct":
        m.direct_inequality_constraints["d1"].params["p"] = SYM("newd")
        m.direct_inequality_constraints["d1"].enabled = BOOLSYM("nend")
        d = Direct("d1", 2, enabled=BOOLSYM("nend"))
        d.params["p"] = SYM("newd")
    n = mk(kind, [H("h1", p1, enabled=f1), H("h2", enabled=f2)], [d], jit, jint)
    compare(m, n, dt, "after change")


def change_back(kind, jit):
    """changing a value away and back leaves no trace"""
    dt = POS("dt")
    m = mk(kind, [H("h1"), H("h2")], [Direct("d1", 2)], jit)
    m.filter_control(ARR("y", 2), dt, ARR("v", 2))
    m.constraints["h1"].params["p"] = SYM("newp")
    m.constraints["h2"].enabled = False
    m.filter_control(ARR("z", 2), dt, ARR("w", 2))
    m.constraints["h1"].params["p"] = SYM("p_h1")
    m.constraints["h2"].enabled = True
    n = mk(kind, [H("h1"), H("h2")], [Direct("d1", 2)], jit)
    compare(m, n, dt, "after changing back")


def step_size_change(kind, jit):
    """the step size of the current call is the one used"""
    m = mk(kind, [H("h1")], [], jit, window=2, dt=1)
    m.filter_control(ARR("y", 2), 2, ARR("v", 2))
    n = mk(kind, [H("h1")], [], jit, window=2, dt=1)
    compare(m, n, 1, "new step size")


class Phi(H):
    """a constraint whose logged value is not its barrier value"""

    def _phi(self, state, params):
        return UF("phi_" + self.name, state, params["p"])


def jit_agrees(kind, bnd, jint, prior=0):
    """jit compilation does not change what a module computes"""
    dt = POS("dt")
    lo, hi = bounds(bnd)
    e1 = BOOLSYM("en1")
    m = mk(kind, [H("h1", enabled=e1), Phi("h2", bias=SYM("bias2"))], [Direct("d1", 2)], True, jint, lo=lo, hi=hi)
    n = mk(kind, [H("h1", enabled=e1), Phi("h2", bias=SYM("bias2"))], [Direct("d1", 2)], False, False, lo=lo, hi=hi)
    warm(m, prior, dt)
    warm(n, prior, dt)
    m.filter_control(ARR("y", 2), dt, ARR("v", 2))
    n.filter_control(ARR("y", 2), dt, ARR("v", 2))
    compare(m, n, dt, "jit against no jit")


def selection(kind, jit, keep, order=1):
    """constraints_to_use keeps exactly the named constraints"""
    dt = POS("dt")
    names = [s for s in ("h1", "h2", "h3") if s[1] in keep]
    m = mk(kind, [H("h1"), H("h2"), H("h3")], [], jit, constraints_to_use=names[::order])
    n = mk(kind, [H(s) for s in names], [], jit)
    CHECK_EQ("constraints kept", list(m.constraints.keys()), names)
    compare(m, n, dt, "selected constraints")


def selection_empty(kind):
    raised = False
    try:
        mk(kind, [H("h1"), H("h2")], [], False, constraints_to_use=["nope"])
    except ValueError:
        raised = True
    CHECK("selecting no constraint at all is rejected", raised)
    m = mk(kind, [H("h1"), H("h2")], [], False)
    CHECK_EQ("no selection keeps every constraint", list(m.constraints.keys()), ["h1", "h2"])


# ---------------------------------------------------------------- logging
def hv(name, x, p=None):
    return UF("h_" + name, x[0], x[1], SYM("p_" + name) if p is None else p)


def logging(kind, jit, en, prior=0):
    """logged values are the unbiased constraint values at the state of the latest call"""
    dt = POS("dt")
    m = mk(kind, [H("h1", bias=SYM("bias1")), H("h2", enabled=BOOLSYM("en2"))], [], jit)
    CHECK("before any call nothing is logged", len(m.generate_info()["constraints"]) == 0)
    m.filter_control(ARR("y", 2), dt, ARR("v", 2))
    warm(m, prior, dt)
    m.constraints["h2"].params["p"] = SYM("newp")
    m.filter_control(ARR("x", 2), dt, ARR("u", 2))
    info = m.generate_info()
    CHECK("values of the filtering state are labelled as such", "constraints_at_last_state" in info and "constraints" not in info)
    if "constraints_at_last_state" in info:
        c = info["constraints_at_last_state"]
        x = VEC("x", 2)
        CHECK_EQ("every constraint logged once", list(c.keys()), ["h1", "h2"])
        CHECK_EQ("value of h1", c["h1"], hv("h1", x))
        CHECK_EQ("value of h2", c["h2"], hv("h2", x, SYM("newp")))
    m.update_constraint_values(ARR("z", 2))
    info = m.generate_info()
    CHECK("values of the new state are labelled as current", "constraints" in info and "constraints_at_last_state" not in info)
    if "constraints" in info:
        c = info["constraints"]
        CHECK_EQ("current value of h1", c["h1"], hv("h1", VEC("z", 2)))
        CHECK_EQ("current value of h2", c["h2"], hv("h2", VEC("z", 2), SYM("newp")))
    m.filter_control(ARR("w", 2), dt, ARR("u", 2))
    info = m.generate_info()
    CHECK("values are labelled as last state again", "constraints_at_last_state" in info and "constraints" not in info)
    if "constraints_at_last_state" in info:
        CHECK_EQ("value of h1 in the last call", info["constraints_at_last_state"]["h1"], hv("h1", VEC("w", 2)))


def logging_hocbf(jit):
    """a high order constraint logs the value of the original constraint"""
    h = H("h1")
    c = HOCBFConstraint(h, 2, f_sys, Alpha("a"))
    c.name = "h1"
    m = EA([c], [], jit_enable=jit)
    m.filter_control(ARR("x", 2), POS("dt"), ARR("u", 2))
    CHECK_EQ("logged value of the high order constraint", m.generate_info()["constraints_at_last_state"]["h1"], hv("h1", VEC("x", 2)))


# ---------------------------------------------------------------- composition
class U1(RTAModule):
    """any filter, numbered"""

    def __init__(self, k, **kw):
        self.k = k
        self.n = 0
        super().__init__(**kw)

    def reset(self):
        super().reset()
        self.n = 0

    def compute_filtered_control(self, input_state, step_size, control_desired):
        self.intervening = UFBOOL("iv" + self.k, input_state, step_size, control_desired, self.n)
        self.n = self.n + 1
        return UFVEC("k" + self.k, 2, input_state, step_size, control_desired, self.n)


def cascade(bnd, count, disabled, prior=0):
    """filters run in order, each on the previous output with the same state and step; the flag is their disjunction"""
    lo, hi = bounds(bnd)
    mods = [U1(str(k)) for k in range(count)]
    m = CA(mods, control_bounds_low=lo, control_bounds_high=hi)
    if disabled is not None:
        mods[disabled].enable = False
    warm(m, prior, 1.0)
    for step in range(2):
        x, u, dt = ARR("x" + str(step) + "_", 2), ARR("u" + str(step) + "_", 2), POS("dt" + str(step))
        out = m.filter_control(x, dt, u)
        c = VEC("u" + str(step) + "_", 2)
        iv = False
        for k in range(count):
            if k != disabled:
                iv = iv or UFBOOL("iv" + str(k), VEC("x" + str(step) + "_", 2), dt, c, prior + step)
                c = UFVEC("k" + str(k), 2, VEC("x" + str(step) + "_", 2), dt, c, prior + step + 1)
        CHECK_EQ("cascaded control at step " + str(step), out, clip(c, lo, hi))
        CHECK_EQ("cascaded intervening flag at step " + str(step), m.intervening, iv)


def cascade_child_bounds():
    """children saturate with their own bounds before the next child sees the control"""
    lo, hi = bounds("both")
    a = U1("0", control_bounds_low=lo, control_bounds_high=hi)
    b = U1("1")
    m = CA([a, b])
    out = m.filter_control(ARR("x", 2), POS("dt"), ARR("u", 2))
    c = clip(UFVEC("k0", 2, VEC("x", 2), POS("dt"), VEC("u", 2), 1), lo, hi)
    CHECK_EQ("second child filters the saturated output of the first", out, UFVEC("k1", 2, VEC("x", 2), POS("dt"), c, 1))


def long_history(kind, jit, calls, same=False):
    """nothing accumulates: a call after many others gives what a new module gives"""
    m = mk(kind, [H("h1"), H("h2")], [Direct("d1", 2)], jit, dt=1.0, lo=-1.0, hi=1.0)
    n = mk(kind, [H("h1"), H("h2")], [Direct("d1", 2)], jit, dt=1.0, lo=-1.0, hi=1.0)
    for k in range(calls):
        t = 0 if same else k
        m.filter_control(np.array([t * 0.25, 1.0]), 1.0, np.array([0.5, t * 0.125]))
        CLEAR_EVENTS()
    compare(m, n, 1.0, "after " + str(calls) + " calls")


KEYS = {
    "explicit_simplex": ["constraint_violation", "pred_state"],
    "implicit_simplex": ["constraint_violation", "pred_state", "integrate"],
    "explicit_asif": ["generate_barrier_constraint_mats", "update_ineq_mats"],
    "implicit_asif": ["generate_barrier_constraint_mats", "update_ineq_mats", "jacobian", "generate_ineq_constraint_mats", "pred_state", "integrate"],
}


def jit_mixed(kind, on):
    """every choice of which subroutines are compiled computes the same, also after changes; on is a bit mask over the names"""
    dt = POS("dt")
    flags = {k: (on >> i) % 2 == 1 for i, k in enumerate(KEYS[kind])}
    kw = {}
    if kind == "implicit_simplex" or kind == "implicit_asif":
        kw = {"backup_window": dt, "backup_controller": Backup(jit_enable=on % 2 == 0)}
    if kind == "explicit_simplex":
        kw = {"backup_controller": Backup(jit_enable=on % 2 == 0)}
    cls = {"explicit_simplex": ES, "implicit_simplex": IS, "explicit_asif": EA, "implicit_asif": IA}[kind]
    lo, hi = bounds("both")

    def build(jit, p, e):
        args = [[H("h1", p, enabled=e), H("h2")]]
        if cls is EA or cls is IA:
            args.append([Direct("d1", 2)])
        more = {"jit_compile_dict": flags} if jit else {}
        return cls(*args, jit_enable=jit, control_bounds_low=lo, control_bounds_high=hi, **more, **kw)
    m = build(True, "p_h1", True)
    m.filter_control(ARR("y", 2), dt, ARR("v", 2))
    m.constraints["h1"].params["p"] = SYM("newp")
    m.constraints["h1"].enabled = BOOLSYM("nen")
    n = build(False, "newp", BOOLSYM("nen"))
    compare(m, n, dt, "any choice of compiled parts")
    if cls is EA or cls is IA:
        CHECK_EQ("any choice of compiled parts: attribution", m.constraints_causing_intervention, n.constraints_causing_intervention)


def jit_mixed_steps(kind, on):
    """the same after the step size went away and came back"""
    flags = {k: (on >> i) % 2 == 1 for i, k in enumerate(KEYS[kind])}
    cls = {"implicit_simplex": IS, "implicit_asif": IA}[kind]
    kw = {"backup_window": 2}

    def build(jit):
        more = {"jit_compile_dict": flags} if jit else {}
        args = [[H("h1"), H("h2")]] + ([[Direct("d1", 2)]] if cls is IA else [])
        return cls(*args, jit_enable=jit, backup_controller=Backup(jit_enable=jit), **more, **kw)
    m = build(True)
    m.filter_control(ARR("y", 2), 1, ARR("v", 2))
    m.filter_control(ARR("z", 2), 2, ARR("w", 2))
    n = build(False)
    compare(m, n, 1, "any choice of compiled parts")
    if cls is IA:
        CHECK_EQ("any choice of compiled parts: attribution", m.constraints_causing_intervention, n.constraints_causing_intervention)


def paused(kind, jit, calls):
    """what happened before and while a module was disabled leaves no trace"""
    dt = POS("dt")
    m = mk(kind, [H("h1"), H("h2")], [Direct("d1", 2)], jit)
    m.filter_control(ARR("y", 2), dt, ARR("v", 2))
    m.enable = False
    for k in range(calls):
        m.filter_control(ARR("z" + str(k), 2), dt, ARR("w" + str(k), 2))
    m.constraints["h1"].params["p"] = SYM("newp")
    m.filter_control(ARR("z", 2), dt, ARR("w", 2))
    m.enable = True
    n = mk(kind, [H("h1", "newp"), H("h2")], [Direct("d1", 2)], jit)
    compare(m, n, dt, "after being disabled")
