"""Switching filters: trigger condition, trajectory coverage, latch, backup isolation."""
import numpy as np
import jax.numpy as jnp
from collections import OrderedDict
from spec_common import *
from spec_kinds import ES, IS, IA


def hval(name, x, bias=0.0, p=None):
    return UF("h_" + name, x[0], x[1], SYM("p_" + name) if p is None else p) + bias


def ub(x, dt, lo, hi):
    return clip(UFVEC("ub", 2, x, dt), lo, hi)


def explicit_switch(bnd, jit, prior=0):
    lo, hi = bounds(bnd)
    e1, e2 = BOOLSYM("en1"), BOOLSYM("en2")
    m = ES([H("h1", bias=SYM("bias1"), enabled=e1), H("h2", enabled=e2)], backup_controller=Backup(jit_enable=jit), control_bounds_low=lo,
           control_bounds_high=hi, jit_enable=jit)
    dt = POS("dt")
    warm(m, prior, dt)
    out = m.filter_control(ARR("x", 2), dt, ARR("u", 2))
    x, u = VEC("x", 2), VEC("u", 2)
    y = step_uf(x, dt, u)
    viol = (e1 and hval("h1", y, SYM("bias1")) < 0) or (e2 and hval("h2", y) < 0)
    CHECK_EQ("intervening exactly when an enabled constraint is violated at the predicted state", m.intervening, viol)
    CHECK_EQ("backup control exactly when triggered, desired control otherwise", out, ub(x, dt, lo, hi) if viol else clip(u, lo, hi))


def ref_viol(x, u, dt, n, lo, hi, e1, e2):
    """any enabled constraint violated at any of: state after one desired step, then n backup steps"""
    s = step_uf(x, dt, u)
    v = (e1 and hval("h1", s, SYM("bias1")) < 0) or (e2 and hval("h2", s) < 0)
    for k in range(n):
        s = step_uf(s, dt, ub(s, dt, lo, hi))
        v = v or (e1 and hval("h1", s, SYM("bias1")) < 0) or (e2 and hval("h2", s) < 0)
    return v


def implicit_switch(bnd, jit, n, window, jint, prior=0):
    """n backup steps are covered when backup_window = window * step_size"""
    lo, hi = bounds(bnd)
    e1, e2 = BOOLSYM("en1"), BOOLSYM("en2")
    dt = POS("dt")
    m = IS([H("h1", bias=SYM("bias1"), enabled=e1), H("h2", enabled=e2)], backup_window=window * dt, backup_controller=Backup(jit_enable=jit),
           control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit, jit_compile_dict={"integrate": jint, "pred_state": jint})
    warm(m, prior, dt)
    out = m.filter_control(ARR("x", 2), dt, ARR("u", 2))
    x, u = VEC("x", 2), VEC("u", 2)
    viol = ref_viol(x, u, dt, n, lo, hi, e1, e2)
    CHECK_EQ("intervening exactly when an enabled constraint is violated along the checked trajectory", m.intervening, viol)
    CHECK_EQ("backup control exactly when triggered", out, ub(x, dt, lo, hi) if viol else clip(u, lo, hi))


def implicit_symbolic_window(jit):
    lo, hi = None, None
    dt, w = POS("dt"), POS("window")
    n = int(w / dt)
    ASSUME(n <= 3)
    m = IS([H("h1")], backup_window=w, backup_controller=Backup(jit_enable=jit), jit_enable=jit)
    out = m.filter_control(ARR("x", 2), dt, ARR("u", 2))
    x, u = VEC("x", 2), VEC("u", 2)
    s = step_uf(x, dt, u)
    v = hval("h1", s) < 0
    for k in range(3):
        s = step_uf(s, dt, ub(s, dt, lo, hi))
        v = v or (k < n and hval("h1", s) < 0)
    CHECK_EQ("int(backup_window/step_size) backup steps are checked", m.intervening, v)


def implicit_step_change(jit):
    """two calls with different step sizes: each uses its own"""
    lo, hi = None, None
    m = IS([H("h1")], backup_window=2, backup_controller=Backup(jit_enable=jit), jit_enable=jit, latch_time=0)
    m.filter_control(ARR("y", 2), 2, ARR("v", 2))
    first = m.intervening
    CHECK_EQ("step size 2: one backup step", first, ref_viol1("y", "v", 2, 1))
    m.filter_control(ARR("x", 2), 1, ARR("u", 2))
    CHECK_EQ("step size 1: two backup steps", m.intervening, ref_viol1("x", "u", 1, 2))


def ref_viol1(x, u, dt, n):
    s = step_uf(VEC(x, 2), dt, VEC(u, 2))
    v = hval("h1", s) < 0
    for k in range(n):
        s = step_uf(s, dt, UFVEC("ub", 2, s, dt))
        v = v or hval("h1", s) < 0
    return v


def latch(kind, jit, steps, prior=0):
    """the backup stays on until latch_time has elapsed since the trigger, then is re-evaluated"""
    lo, hi = bounds("both")
    T = SYM("latch")
    ASSUME(T >= 0)
    if kind == "explicit":
        m = ES([H("h1")], backup_controller=Backup(jit_enable=jit), control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit, latch_time=T)
    else:
        m = IS([H("h1")], backup_window=0, backup_controller=Backup(jit_enable=jit), control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit, latch_time=T)
    on, elapsed = False, 0.0
    warm(m, prior, 1.0)
    for k in range(steps):
        dt = POS("dt" + str(k))
        out = m.filter_control(ARR("x" + str(k) + "_", 2), dt, ARR("u" + str(k) + "_", 2))
        x, u = VEC("x" + str(k) + "_", 2), VEC("u" + str(k) + "_", 2)
        trig = hval("h1", step_uf(x, dt, u)) < 0
        if on and elapsed < T:
            held = True
            elapsed = elapsed + dt
        else:
            held = False
            elapsed = 0.0
            on = trig
        CHECK_EQ("intervening at step " + str(k), m.intervening, on)
        CHECK_EQ("control at step " + str(k), out, ub(x, dt, lo, hi) if on else clip(u, lo, hi))


def latch_default(jit):
    """with the default latch time every step is decided on its own"""
    m = ES([H("h1")], backup_controller=Backup(jit_enable=jit), jit_enable=jit)
    for k in range(3):
        dt = POS("dt" + str(k))
        out = m.filter_control(ARR("x" + str(k) + "_", 2), dt, ARR("u" + str(k) + "_", 2))
        x, u = VEC("x" + str(k) + "_", 2), VEC("u" + str(k) + "_", 2)
        trig = hval("h1", step_uf(x, dt, u)) < 0
        CHECK_EQ("intervening at step " + str(k), m.intervening, trig)
        CHECK_EQ("control at step " + str(k), out, UFVEC("ub", 2, x, dt) if trig else u)


def backup_state_switch(kind, window, prior=0):
    """prediction never advances the live backup controller; an applied backup control advances it once"""
    dt = POS("dt")
    b = StatefulBackup(jnp.array([SYM("c0")]), jit_enable=False)
    if kind == "explicit":
        m = ES([H("h1")], backup_controller=b, jit_enable=False)
    else:
        m = IS([H("h1")], backup_window=window * dt, backup_controller=b, jit_enable=False)
    warm(m, prior, dt)
    c = jnp.array([SYM("c0")])
    for k in range(2):
        out = m.filter_control(ARR("x" + str(k) + "_", 2), dt, ARR("u" + str(k) + "_", 2))
        x, u = VEC("x" + str(k) + "_", 2), VEC("u" + str(k) + "_", 2)
        s = step_uf(x, dt, u)
        v = hval("h1", s) < 0
        cc = c
        if kind == "implicit":
            for j in range(window):
                uu = UFVEC("ub", 2, s, dt, cc)
                cc = UFVEC("xb", 1, s, dt, cc)
                s = step_uf(s, dt, uu)
                v = v or hval("h1", s) < 0
        CHECK_EQ("trigger at step " + str(k), m.intervening, v)
        CHECK_EQ("control at step " + str(k), out, UFVEC("ub", 2, x, dt, c) if v else u)
        c = UFVEC("xb", 1, x, dt, c) if v else c
        CHECK_EQ("live backup controller state after step " + str(k), b.controller_state, c)


def backup_state_asif(window, prior=0):
    dt = POS("dt")
    b = StatefulBackup(jnp.array([SYM("c0")]), jit_enable=False)
    m = IA([H("h1")], [], backup_window=window * dt, backup_controller=b, jit_enable=False)
    for k in range(2):
        warm(m, prior, dt)
        m.filter_control(ARR("x" + str(k) + "_", 2), dt, ARR("u" + str(k) + "_", 2))
        CHECK_EQ("live backup controller state untouched by prediction", b.controller_state, jnp.array([SYM("c0")]))


def controller_contract():
    """save/restore/reset of a stateful controller"""
    c0 = jnp.array([SYM("c0")])
    b = StatefulBackup(c0, jit_enable=False)
    x, y, dt = VEC("x", 2), VEC("y", 2), POS("dt")
    u1 = b.generate_control(x, dt)
    CHECK_EQ("generate_control uses the controller state", u1, UFVEC("ub", 2, x, dt, c0))
    c1 = UFVEC("xb", 1, x, dt, c0)
    CHECK_EQ("generate_control advances the controller state", b.controller_state, c1)
    b.save()
    u2 = b.generate_control(y, dt)
    CHECK_EQ("second control uses the advanced state", u2, UFVEC("ub", 2, y, dt, c1))
    b.restore()
    CHECK_EQ("restore returns to the saved state", b.controller_state, c1)
    u3 = b.generate_control(y, dt)
    CHECK_EQ("control after restore equals control before", u3, u2)
    w, cs = b.generate_control_with_controller_state(x, dt, c0)
    CHECK_EQ("stateless evaluation does not touch the live state", b.controller_state, UFVEC("xb", 1, y, dt, c1))
    CHECK_EQ("stateless evaluation control", w, UFVEC("ub", 2, x, dt, c0))
    CHECK_EQ("stateless evaluation state", cs, c1)
    b.reset()
    CHECK_EQ("reset returns to the initial state", b.controller_state, c0)
    CHECK_EQ("control after reset", b.generate_control(x, dt), u1)


class DictBackup(RTABackupController):
    def _generate_control(self, state, step_size, controller_state=None):
        return UFVEC("ub", 2, state, step_size, controller_state["a"]), {"a": UF("xb", state, step_size, controller_state["a"])}


class MutatingBackup(RTABackupController):
    """updates its dictionary in place"""

    def _generate_control(self, state, step_size, controller_state=None):
        u = UFVEC("ub", 2, state, step_size, controller_state["a"])
        controller_state["a"] = UF("xb", state, step_size, controller_state["a"])
        return u, controller_state


def controller_contract_dict(mut):
    d0 = {"a": SYM("c0")}
    b = MutatingBackup(d0, jit_enable=False) if mut else DictBackup(d0, jit_enable=False)
    x, y, dt = VEC("x", 2), VEC("y", 2), POS("dt")
    u1 = b.generate_control(x, dt)
    c1 = UF("xb", x, dt, SYM("c0"))
    CHECK_EQ("advanced", b.controller_state["a"], c1)
    b.save()
    u2 = b.generate_control(y, dt)
    b.restore()
    CHECK_EQ("restored", b.controller_state["a"], c1)
    CHECK_EQ("same control after restore", b.generate_control(y, dt), u2)
    b.reset()
    CHECK_EQ("reset returns to the initial state", b.controller_state["a"], SYM("c0"))
    CHECK_EQ("control after reset", b.generate_control(x, dt), u1)
    b.reset()
    CHECK_EQ("second reset returns to the initial state", b.controller_state["a"], SYM("c0"))
    CHECK_EQ("caller's dictionary untouched", d0["a"], SYM("c0"))


def controller_jacobian(jit):
    b = Backup(jit_enable=jit)
    x, dt = VEC("x", 2), POS("dt")
    j = b.jacobian(x, dt)
    from jax import jacfwd
    CHECK_EQ("jacobian of the control law", j, jacfwd(lambda s: UFVEC("ub", 2, s, dt))(x))


def controller_jacobian_stateful(steps):
    """the derivative of the law at the controller state the next control would be generated from"""
    b = StatefulBackup(jnp.array([SYM("c0")]), jit_enable=False)
    c, dt = jnp.array([SYM("c0")]), POS("dt")
    for k in range(steps):
        y = VEC("y" + str(k) + "_", 2)
        b.generate_control(y, dt)
        c = UFVEC("xb", 1, y, dt, c)
    x = VEC("x", 2)
    from jax import jacfwd
    CHECK_EQ("jacobian of the control law", b.jacobian(x, dt), jacfwd(lambda s: UFVEC("ub", 2, s, dt, c))(x))
    CHECK_EQ("the controller state is not advanced", b.generate_control(x, dt), UFVEC("ub", 2, x, dt, c))


class BadBackup(RTABackupController):
    def _generate_control(self, state, step_size, controller_state=None):
        return UFVEC("ub", 2, state, step_size)


def controller_rejects_bad_output():
    raised = False
    try:
        BadBackup(jit_enable=False).generate_control(VEC("x", 2), POS("dt"))
    except ValueError:
        raised = True
    CHECK("a controller that does not return (control, state) is rejected", raised)


def backup_saturated(bnd, jit):
    """both predicted and applied backup controls are saturated"""
    lo, hi = bounds(bnd)
    dt = POS("dt")
    m = ES([H("h1")], backup_controller=Backup(jit_enable=jit), control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit)
    x = VEC("x", 2)
    CHECK_EQ("backup control is saturated", m.backup_control(x, dt), ub(x, dt, lo, hi))
