"""Implicit active set filter: rows along the backup trajectory, subsampling."""
import numpy as np
import jax.numpy as jnp
from jax import grad, jacfwd
from spec_common import *
from spec_kinds import IA
from spec_asif import ref_solve, h_of, cdesc, Direct


def ref_points(x, dt, n, lo, hi):
    """(state, sensitivity) at the current state and after each of n backup steps"""
    s = x
    S = jnp.eye(2)
    pts = [(s, S)]
    for k in range(n):
        s = step_uf(s, dt, clip(UFVEC("ub", 2, s, dt), lo, hi))
        J = jacfwd(lambda y: f_sys(y) + g_sys(y) @ UFVEC("ub", 2, y, dt))(s)
        S = S + J @ S * dt
        pts.append((s, S))
    return pts


def point_row(c, x, pt, ns):
    s, S = pt
    dh = grad(lambda y: h_of(c["name"], y, c["p"]))(s)
    h = h_of(c["name"], s, c["p"]) + c["bias"]
    w = dh @ (S @ g_sys(x))
    w = [w[0], w[1]] + [(-1.0 if c["slack"] == j else 0.0) for j in range(ns)]
    b = -(dh @ (S @ f_sys(x)) + UF("alpha_" + c["name"], h))
    return w, b, h


def bound_rows(lo, hi, ns):
    rows = []
    if lo is not None:
        for i in range(2):
            rows.append(("u" + str(i + 1) + "_min", [1.0 if j == i else 0.0 for j in range(2)] + [0.0] * ns, lo[i] if hasattr(lo, "shape") else lo))
    if hi is not None:
        for i in range(2):
            rows.append(("u" + str(i + 1) + "_max", [-1.0 if j == i else 0.0 for j in range(2)] + [0.0] * ns, -(hi[i] if hasattr(hi, "shape") else hi)))
    return rows


def ref_rows(x, dt, lo, hi, cons, direct, ns, n):
    rows = bound_rows(lo, hi, ns)
    pts = ref_points(x, dt, n, lo, hi)
    for c in cons:
        keep = c["points"] if "points" in c else range(n + 1)
        least = c["least"] if "least" in c else None
        cand = [point_row(c, x, pts[k], ns) for k in keep]
        if least is not None:
            order = jnp.argsort(jnp.array([r[2] for r in cand]))[0:least]
            W = jnp.array([r[0] for r in cand])[order, :]
            b = jnp.array([r[1] for r in cand])[order]
            cand = [(W[i], b[i], 0.0) for i in range(min(least, len(cand)))]
        if "first" in c:
            cand.append(point_row(c, x, pts[0], ns))
        if "last" in c:
            cand.append(point_row(c, x, pts[n], ns))
        for w, b, h in cand:
            if not c["en"]:
                w, b = [0.0] * (2 + ns), 0.0
            rows.append((c["name"], w, b))
    for d in direct:
        w = UFVEC("w_" + d["name"], 2, x, d["p"])
        w = [w[0], w[1]] + [0.0] * ns
        b = UF("c_" + d["name"], x, d["p"])
        if not d["en"]:
            w, b = [0.0] * (2 + ns), 0.0
        rows.append((d["name"], w, b))
    return rows


def build(bnd, slack, direct, jit, n, window, jint, **kw):
    lo, hi = bounds(bnd)
    dt = POS("dt")
    w1, w2 = POS("w1"), POS("w2")
    e1, e2, ed = BOOLSYM("en1"), BOOLSYM("en2"), BOOLSYM("end1")
    s1, s2, ns, ws = None, None, 0, []
    if slack == "first":
        s1, ns, ws = 0, 1, [w1]
    if slack == "second":
        s2, ns, ws = 0, 1, [w2]
    if slack == "both":
        s1, s2, ns, ws = 0, 1, 2, [w1, w2]
    c1 = H("h1", slack_priority_scale=None if s1 is None else w1, bias=SYM("bias1"), enabled=e1)
    c2 = H("h2", slack_priority_scale=None if s2 is None else w2, enabled=e2)
    d = [Direct("d1", 2, enabled=ed)] if direct else []
    m = IA([c1, c2], d, backup_window=window * dt, backup_controller=Backup(jit_enable=jit), control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit,
           jit_compile_dict={"integrate": jint, "pred_state": jint}, **kw)
    cons = [cdesc("h1", bias=SYM("bias1"), slack=s1, en=e1), cdesc("h2", slack=s2, en=e2)]
    dd = [{"name": "d1", "p": SYM("p_d1"), "en": ed}] if direct else []
    rows = ref_rows(VEC("x", 2), dt, lo, hi, cons, dd, ns, n)
    return m, rows, ws, lo, hi, dt


def implicit_rows(bnd, slack, direct, jit, n, window, jint, prior=0):
    m, rows, ws, lo, hi, dt = build(bnd, slack, direct, jit, n, window, jint)
    warm(m, prior, dt)
    out = m.filter_control(ARR("x", 2), dt, ARR("u", 2))
    sol, ok, act = ref_solve(rows, VEC("u", 2), ws)
    CHECK_EQ("filtered control solves the documented program over the backup trajectory", out, clip(sol, lo, hi))


def implicit_attribution(bnd, slack, direct, jit, n, window, jint, prior=1):
    eps = POS("eps")
    m, rows, ws, lo, hi, dt = build(bnd, slack, direct, jit, n, window, jint, epsilon=eps)
    warm(m, prior, dt)
    m.filter_control(ARR("x", 2), dt, ARR("u", 2))
    sol, ok, act = ref_solve(rows, VEC("u", 2), ws)
    CHECK_SET("constraints_causing_intervention names exactly the active rows", m.constraints_causing_intervention, act if ok else [])
    u0 = VEC("u", 2)
    CHECK_EQ("intervening iff the optimiser moved the control by more than epsilon", m.intervening,
             ((u0[0] - sol[0]) ** 2 + (u0[1] - sol[1]) ** 2) > eps ** 2)


def implicit_step_change(jit, first):
    """step sizes 2 then 1 (or back): rows and names follow the current step size"""
    lo, hi = bounds("both")
    m = IA([H("h1")], [Direct("d1", 2)], backup_window=2, backup_controller=Backup(jit_enable=jit), control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit)
    a, b = (2, 1) if first else (1, 2)
    m.filter_control(ARR("y", 2), a, ARR("v", 2))
    out = m.filter_control(ARR("x", 2), b, ARR("u", 2))
    rows = ref_rows(VEC("x", 2), b, lo, hi, [cdesc("h1")], [{"name": "d1", "p": SYM("p_d1"), "en": True}], 0, 2 // b)
    sol, ok, act = ref_solve(rows, VEC("u", 2), [])
    CHECK_EQ("control", out, clip(sol, lo, hi))
    CHECK_SET("attribution", m.constraints_causing_intervention, act if ok else [])


def subsample(jit, call, skip, least, first, last, slack, prior=0):
    """the configured subset of trajectory points, and no other, enters the program"""
    dt = POS("dt")
    n = 3
    e1 = BOOLSYM("en1")
    w1 = POS("w1")
    lo, hi = bounds("low")
    kw = {}
    if call is not None:
        kw["num_check_all"] = call
    if skip is not None:
        kw["skip_length"] = skip
    if least is not None:
        kw["subsample_constraints_num_least"] = least
    c1 = H("h1", enabled=e1, slack_priority_scale=w1 if slack else None, keep_first=first, keep_last=last, **kw)
    c2 = H("h2")
    m = IA([c1, c2], [Direct("d1", 2)], backup_window=n * dt, backup_controller=Backup(jit_enable=jit), control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit)
    d1 = cdesc("h1", en=e1, slack=0 if slack else None)
    base = call if call is not None else -1
    sk = skip if skip is not None else 1
    pts = []
    for k in range(n + 1):
        if k < base or (k - max(base, 0)) % sk == 0:
            pts.append(k)
    d1["points"] = pts
    if least is not None:
        d1["least"] = least
    if first:
        d1["first"] = True
    if last:
        d1["last"] = True
    ns = 1 if slack else 0
    rows = ref_rows(VEC("x", 2), dt, lo, hi, [d1, cdesc("h2")], [{"name": "d1", "p": SYM("p_d1"), "en": True}], ns, n)
    warm(m, prior, dt)
    out = m.filter_control(ARR("x", 2), dt, ARR("u", 2))
    sol, ok, act = ref_solve(rows, VEC("u", 2), [w1] if slack else [])
    CHECK_EQ("control with subsampling", out, clip(sol, lo, hi))
    CHECK_SET("attribution with subsampling", m.constraints_causing_intervention, act if ok else [])
