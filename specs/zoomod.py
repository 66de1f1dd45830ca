"""Zoo modules: each ready-made module is the library filter over the documented dynamics, constraints, bounds and backup law."""
import numpy as np
import jax.numpy as jnp
import scipy
from collections import OrderedDict
from spec_common import *
from spec_zoo import *
from spec_dynamic import U1
from run_time_assurance.rta import DiscreteASIFModule


class PolyA(ConstraintStrengthener):
    def __init__(self, co):
        self.co = co

    def __call__(self, x):
        return poly(self.co, x)


class RefCon(ConstraintModule):
    """a constraint given by its formula"""

    def __init__(self, fn, params, co, phi=None, **kw):
        self.fn = fn
        self.phi_fn = phi
        super().__init__(alpha=PolyA(co), params=params, **kw)

    def _compute(self, state, params):
        return self.fn(state, params)

    def _phi(self, state, params):
        return self.fn(state, params) if self.phi_fn is None else self.phi_fn(state, params)


class RefES(ExplicitSimplexModule):
    def __init__(self, cons, dyn, **kw):
        self.cons, self.dyn = cons, dyn
        super().__init__(**kw)

    def _setup_constraints(self):
        return self.cons

    def _pred_state(self, state, step_size, control):
        return self.dyn.step(step_size, state, control)[0]


class RefIS(ImplicitSimplexModule):
    def __init__(self, cons, dyn, **kw):
        self.cons, self.dyn = cons, dyn
        super().__init__(**kw)

    def _setup_constraints(self):
        return self.cons

    def _pred_state(self, state, step_size, control):
        return self.dyn.step(step_size, state, control)[0]


class RefEA(ExplicitASIFModule):
    def __init__(self, cons, f, g, **kw):
        self.cons, self.f, self.g = cons, f, g
        super().__init__(**kw)

    def _setup_constraints(self):
        return self.cons

    def state_transition_system(self, state):
        return self.f(state)

    def state_transition_input(self, state):
        return self.g(state)


class RefIA(ImplicitASIFModule):
    def __init__(self, cons, f, g, **kw):
        self.cons, self.f, self.g = cons, f, g
        super().__init__(**kw)

    def _setup_constraints(self):
        return self.cons

    def state_transition_system(self, state):
        return self.f(state)

    def state_transition_input(self, state):
        return self.g(state)


class RefDA(DiscreteASIFModule):
    def __init__(self, cons, nxt, **kw):
        self.cons, self.nxt = cons, nxt
        super().__init__(**kw)

    def _setup_constraints(self):
        return self.cons

    def next_state_differentiable(self, state, step_size, control):
        return self.nxt(state, step_size, control)


class StopLQR(RTABackupController):
    """linear quadratic regulation of the velocity to zero"""

    def __init__(self, A, B):
        k = len(A) // 2
        Q = 0.05 * np.eye(2 * k)
        R = 1000 * np.eye(k)
        P = scipy.linalg.solve_continuous_are(A, B, Q, R)
        self.K = np.linalg.inv(R) @ np.transpose(B) @ P
        self.k = k
        super().__init__()

    def _generate_control(self, state, step_size, controller_state=None):
        e = jnp.concatenate((jnp.zeros(self.k), state[self.k:]))
        return -(self.K @ e), None


class AnyBackup(RTABackupController):
    def __init__(self, m):
        self.m = m
        super().__init__()

    def _generate_control(self, state, step_size, controller_state=None):
        return UFVEC("anyb", self.m, state, step_size), None


def pair(z, r, n, k, dt):
    """same control, flag and information for any state and desired control, on two successive calls"""
    for s in range(2):
        xs, us = ARR("x" + str(s) + "_", n), ARR("u" + str(s) + "_", k)
        a = z.filter_control(xs, dt, us)
        b = r.filter_control(ARR("x" + str(s) + "_", n), dt, ARR("u" + str(s) + "_", k))
        CHECK_EQ("control of call " + str(s), a, b)
        CHECK_EQ("intervening of call " + str(s), z.intervening, r.intervening)
        i, j = z.generate_info(), r.generate_info()
        CHECK_EQ("logged constraints of call " + str(s), i["constraints_at_last_state"], j["constraints_at_last_state"])


def docking_cons(dim, v0, v1, vd, lim):
    co = [0, 0.01, 0, 0.1] if dim == 2 else [0, 0.05, 0, 0.005]
    out = OrderedDict()
    out["rel_vel"] = RefCon(lambda s, p: rel_vel(s, dim, p["v0"], p["v1"], p["vd"]), {"v0": v0, "v1": v1, "vd": vd}, co, bias=-1e-4)
    names = ["x_vel", "y_vel", "z_vel"]
    for i in range(dim):
        out[names[i]] = axis_limit(dim + i, lim[i])
    return out


def axis_limit(j, v, co=None, **kw):
    return RefCon(lambda s, p: p["l"] ** 2 - s[j] ** 2, {"l": v}, [0, 0.0005, 0, 0.001] if co is None else co, **kw)


def docking(dim, kind, cfg, method, jit, only=None):
    m, n = defaults.M_DEFAULT, defaults.N_DEFAULT
    v0, vc, vd, lim = 0.2, 2 if dim == 2 else 4, 0, [10, 10, 10]
    lo, hi = -1, 1
    window, dt = 5, 5
    kw = {"jit_enable": jit}
    if cfg == "symbolic" or cfg == "backup":
        m, n, v0, vc, vd = POS("m"), POS("n"), SYM("v0"), SYM("vc"), SYM("vd")
        lim = [SYM("lx"), SYM("ly"), SYM("lz")]
        lo, hi = bounds("both", dim)
        dt = POS("dt")
        window = dt
        kw.update({"m": m, "n": n, "v0": v0, "v1_coef": vc, "v0_distance": vd, "x_vel_limit": lim[0], "y_vel_limit": lim[1], "control_bounds_low": lo, "control_bounds_high": hi})
        if dim == 3:
            kw["z_vel_limit"] = lim[2]
        if kind == "IS" or kind == "IA":
            kw["backup_window"] = window
    A, B = (A2(n), B2(m)) if dim == 2 else (A3(n), B3(m))
    cons = docking_cons(dim, v0, vc * n, vd, lim)
    rk = {"jit_enable": jit, "control_bounds_low": lo, "control_bounds_high": hi}
    if kind != "EA":
        bk = StopLQR(A, B)
        if cfg == "backup":
            bk = AnyBackup(dim)
            kw["backup_controller"] = AnyBackup(dim)
        rk["backup_controller"] = bk
    mod = d2 if dim == 2 else d3
    pre = "Docking2d" if dim == 2 else "Docking3d"
    names = {"ES": "ExplicitSwitchingRTA", "IS": "ImplicitSwitchingRTA", "EA": "ExplicitOptimizationRTA", "IA": "ImplicitOptimizationRTA"}
    cls = getattr(mod, pre + names[kind])
    if method is not None:
        kw["integration_method"] = method
    if only is not None:
        kw["constraints_to_use"] = only
        rk["constraints_to_use"] = only
    z = cls(**kw)
    dyn = dynamics.LinearODEDynamics(A=A, B=B, integration_method=method or "RK45", use_jax=True)
    f, g = lambda s: jnp.array(A) @ s, lambda s: jnp.array(B)
    if kind == "ES":
        r = RefES(cons, dyn, **rk)
    elif kind == "IS":
        r = RefIS(cons, dyn, backup_window=window, **rk)
    elif kind == "EA":
        r = RefEA(cons, f, g, control_dim=dim, **rk)
    else:
        r = RefIA(cons, f, g, control_dim=dim, backup_window=window, integration_method=method or "RK45", **rk)
    CHECK_EQ("constraint names", list(z.constraints.keys()), list(r.constraints.keys()))
    pair(z, r, 2 * dim, dim, dt)


def docking_few(dim, kind, cfg, method, jit):
    docking(dim, kind, cfg, method, jit, ["rel_vel"] if cfg == "default" else ["x_vel"])


def docking_constraints(dim, kind):
    """constraint set of a docking module, value by value"""
    n = POS("n")
    v0, vc, vd, lim = SYM("v0"), SYM("vc"), SYM("vd"), [SYM("lx"), SYM("ly"), SYM("lz")]
    kw = {"m": POS("m"), "n": n, "v0": v0, "v1_coef": vc, "v0_distance": vd, "x_vel_limit": lim[0], "y_vel_limit": lim[1]}
    if dim == 3:
        kw["z_vel_limit"] = lim[2]
    mod = d2 if dim == 2 else d3
    names = {"ES": "ExplicitSwitchingRTA", "IS": "ImplicitSwitchingRTA", "EA": "ExplicitOptimizationRTA", "IA": "ImplicitOptimizationRTA"}
    z = getattr(mod, ("Docking2d" if dim == 2 else "Docking3d") + names[kind])(**kw)
    x = VEC("x", 2 * dim)
    c = z.constraints
    CHECK_EQ("constraint names", list(c.keys()), ["rel_vel", "x_vel", "y_vel", "z_vel"][0:dim + 1])
    f = rel_vel(x, dim, v0, vc * n, vd)
    constraint_is("rel_vel", c["rel_vel"], x, f, f, [0, 0.01, 0, 0.1] if dim == 2 else [0, 0.05, 0, 0.005], -1e-4)
    for i in range(dim):
        f = lim[i] ** 2 - x[dim + i] ** 2
        constraint_is(["x_vel", "y_vel", "z_vel"][i], c[["x_vel", "y_vel", "z_vel"][i]], x, f, f, [0, 0.0005, 0, 0.001], 0)


def bad_method(which):
    raised = False
    try:
        if which == "2d":
            d2.Docking2dExplicitSwitchingRTA(integration_method="RK23")
        elif which == "3d":
            d3.Docking3dExplicitSwitchingRTA(integration_method="RK23")
        else:
            n1.Integrator1dDockingExplicitSwitchingRTA(integration_method="RK23")
    except Exception:
        raised = True
    CHECK("an unknown integration method is rejected", raised)


def stop_lqr(dim):
    m, n = POS("m"), POS("n")
    A, B = (A2(n), B2(m)) if dim == 2 else (A3(n), B3(m))
    r = StopLQR(A, B)
    z = d2.Docking2dStopLQRBackupController(m=m, n=n) if dim == 2 else d3.Docking3dStopLQRBackupController(m=m, n=n)
    x = VEC("x", 2 * dim)
    CHECK_EQ("stopping control", z.generate_control(x, POS("dt")), r.generate_control(x, POS("dt")))
    y = jnp.concatenate((VEC("y", dim), x[dim:]))
    CHECK_EQ("independent of position", z.generate_control(y, POS("dt")), z.generate_control(x, POS("dt")))
    z = d2.Docking2dStopLQRBackupController() if dim == 2 else d3.Docking3dStopLQRBackupController()
    m, n = defaults.M_DEFAULT, defaults.N_DEFAULT
    r = StopLQR(A2(n), B2(m)) if dim == 2 else StopLQR(A3(n), B3(m))
    CHECK_EQ("stopping control with default mass and rate", z.generate_control(x, POS("dt")), r.generate_control(x, POS("dt")))


# ------------------------------------------------------------------ integrator
class MinusOne(RTABackupController):
    def _generate_control(self, state, step_size, controller_state=None):
        return jnp.array([-1.0]), None


def integrator(kind, cfg, method, jit):
    m = IM_DEFAULT
    lo, hi = -1, 1
    window, dt = 2, 2
    kw = {"jit_enable": jit}
    if cfg != "default":
        m = POS("m")
        lo, hi = bounds("both", 1)
        dt = POS("dt")
        window = dt
        kw.update({"m": m, "control_bounds_low": lo, "control_bounds_high": hi})
        if kind == "IS" or kind == "IA":
            kw["backup_window"] = window
    if method is not None:
        kw["integration_method"] = method
    A, B = np.array([[0.0, 1.0], [0.0, 0.0]]), np.array([[0.0], [1 / m]])
    rk = {"jit_enable": jit, "control_bounds_low": lo, "control_bounds_high": hi}
    if kind != "EA":
        rk["backup_controller"] = MinusOne()
        if cfg == "backup":
            rk["backup_controller"] = AnyBackup(1)
            kw["backup_controller"] = AnyBackup(1)
    cons = OrderedDict()
    if kind == "ES" or kind == "EA":
        cons["rel_vel"] = RefCon(lambda s, p: -2 * s[0] - s[1] ** 2, {}, [0, 1, 0, 30])
    else:
        cons["rel_vel"] = RefCon(lambda s, p: -s[0], {}, [0, 10, 0, 30], subsample_constraints_num_least=1)
    meth = method or "Euler"
    dyn = dynamics.LinearODEDynamics(A=A, B=B, integration_method=meth, use_jax=True)
    f, g = lambda s: jnp.array(A) @ s, lambda s: jnp.array(B)
    if kind == "ES":
        z, r = n1.Integrator1dDockingExplicitSwitchingRTA(**kw), RefES(cons, dyn, **rk)
    elif kind == "IS":
        z, r = n1.Integrator1dDockingImplicitSwitchingRTA(**kw), RefIS(cons, dyn, backup_window=window, **rk)
    elif kind == "EA":
        z, r = n1.Integrator1dDockingExplicitOptimizationRTA(**kw), RefEA(cons, f, g, control_dim=1, **rk)
    else:
        z, r = n1.Integrator1dDockingImplicitOptimizationRTA(**kw), RefIA(cons, f, g, control_dim=1, backup_window=window, integration_method=meth, **rk)
    pair(z, r, 2, 1, dt)


def integrator_backup():
    b = n1.Integrator1dDockingBackupController()
    CHECK_EQ("backup brakes at full thrust", b.generate_control(VEC("x", 2), POS("dt")), jnp.array([-1]))


# ------------------------------------------------------------------ inspection
def insp_pars(cfg):
    d = {"m": defaults.M_DEFAULT, "n": defaults.N_DEFAULT, "chief_radius": 5, "deputy_radius": 5, "v0": 0.2, "v1_coef": 2, "v0_distance": 0, "r_max": 1000,
         "fov": 60 * jnp.pi / 180, "vel_limit": 1, "sun_vel": -defaults.N_DEFAULT}
    kw = {}
    if cfg != "default":
        d = {"m": POS("m"), "n": POS("n"), "chief_radius": POS("Rc"), "deputy_radius": POS("Rd"), "v0": POS("v0"), "v1_coef": POS("vc"), "v0_distance": SYM("vd"),
             "r_max": POS("rmax"), "fov": SYM("fov"), "vel_limit": POS("vl"), "sun_vel": SYM("ws")}
        for k in d.keys():
            kw[k] = d[k]
    d["v1"] = d["v1_coef"] * d["n"]
    d["a"] = 1 / d["m"] - 3 * d["n"] ** 2 * d["r_max"] - 2 * d["n"] * min(d["vel_limit"], d["v0"] + d["v1"] * d["r_max"])
    return d, kw


def sun(ang):
    return jnp.array([-jnp.cos(ang), -jnp.sin(ang), 0.0])


def insp_vel_limits(c, x, d):
    for i in range(3):
        f = d["vel_limit"] ** 2 - x[3 + i] ** 2
        constraint_is(["x_vel", "y_vel", "z_vel"][i], c[["x_vel", "y_vel", "z_vel"][i]], x, f, f, [0, 0.1, 0, 0.01], -0.001)


def same_params(label, c, want):
    for k in want.keys():
        CHECK_EQ(label + " parameter " + k, c.params[k], want[k])


def inspection_1v1(cfg, discrete, what):
    d, kw = insp_pars(cfg)
    z = i1.DiscreteInspection1v1RTA(**kw) if discrete else i1.Inspection1v1RTA(**kw)
    c = z.constraints
    x = VEC("x", 8)
    w = jnp.array([0, 0, d["sun_vel"]])
    R = d["chief_radius"] + d["deputy_radius"]
    if what == "set":
        CHECK_SET("constraint names", list(c.keys()), ["rel_vel", "sun", "r_max", "PSM", "x_vel", "y_vel", "z_vel", "chief_collision"])
        same_params("chief collision", c["chief_collision"], {"collision_radius": R, "a_max": d["a"]})
        same_params("sun", c["sun"], {"fov": d["fov"], "a_max": d["a"]})
        same_params("r_max", c["r_max"], {"r_max": d["r_max"], "a_max": d["a"]})
        same_params("PSM", c["PSM"], {"collision_radius": R, "dt": 1})
        CHECK_EQ("control dimension", z.control_dim, 3)
        lo, hi = z.control_bounds_low, z.control_bounds_high
        CHECK_EQ("default lower bound", lo, -1)
        CHECK_EQ("default upper bound", hi, 1)
    if what == "light":
        f = rel_vel(x, 3, d["v0"], d["v1"], d["v0_distance"])
        constraint_is("rel_vel", c["rel_vel"], x, f, f, [0, 0.01, 0, 0.001] if discrete else [0, 0.05, 0, 0.005], -0.001)
        insp_vel_limits(c, x, d)
        constraint_is("chief_collision", c["chief_collision"], x, collision(x, R, d["a"]), norm(x[0:3]) - R, [0, 0.01, 0, 0.001], 0)
        constraint_is("r_max", c["r_max"], x, max_distance(x, d["r_max"], d["a"]), d["r_max"] - norm(x[0:3]), [0, 0.001, 0, 0.001] if discrete else [0, 0.01, 0, 0.001], -0.001)
    if what == "sun":
        k = sun(x[6])
        constraint_is("sun", c["sun"], x, cone(x[0:3], x[3:6], k, w, d["fov"], d["a"]), cone_phi(x[0:3], k, d["fov"]),
                      [0, 0.001, 0, 0.001] if discrete else [0, 0.001, 0, 0.0001], -0.001)
    if what == "psm":
        f = psm(x, d["n"], R, 1, 100)
        constraint_is("PSM", c["PSM"], x, f, f, [0, 0.001, 0, 0.001] if discrete else [0, 0.01, 0, 0.001], 0)
    if what == "dyn":
        if discrete:
            inspection_next_state(z, d)
        else:
            CHECK_EQ("drift", z.state_transition_system(x), jnp.concatenate((drift3(x, d["n"]), jnp.array([d["sun_vel"], 0]))))
            CHECK_EQ("input", z.state_transition_input(x) @ VEC("u", 3), jnp.concatenate((jnp.zeros(3), VEC("u", 3) / d["m"], jnp.zeros(2))))


def inspection_next_state(z, d):
    """closed-form coasting plus constant-thrust response"""
    x, u, t, n, m = VEC("x", 8), VEC("u", 3), POS("dt"), d["n"], d["m"]
    y = z.next_state_differentiable(x, t, u)
    c, s = jnp.cos(n * t), jnp.sin(n * t)
    free = coast(x, n, t)
    vel = [3 * n * s * x[0] + c * x[3] + 2 * s * x[4], -6 * n * (1 - c) * x[0] - 2 * s * x[3] + (4 * c - 3) * x[4], -n * s * x[2] + c * x[5]]
    a = [u[0] / m, u[1] / m, u[2] / m]
    fp = [(1 - c) / n ** 2 * a[0] + 2 * (n * t - s) / n ** 2 * a[1],
          -2 * (n * t - s) / n ** 2 * a[0] + (4 * (1 - c) / n ** 2 - 1.5 * t ** 2) * a[1],
          (1 - c) / n ** 2 * a[2]]
    fv = [s / n * a[0] + 2 * (1 - c) / n * a[1], -2 * (1 - c) / n * a[0] + (4 * s / n - 3 * t) * a[1], s / n * a[2]]
    for i in range(3):
        CHECK_EQ("position component " + str(i), y[i], free[i] + fp[i])
        CHECK_EQ("velocity component " + str(i), y[3 + i], vel[i] + fv[i])
    CHECK_EQ("sun angle advances at the sun rate", y[6], x[6] + d["sun_vel"] * t)


def inspection_hocbf():
    d, kw = insp_pars("symbolic")
    z = i1.Inspection1v1RTA(use_hocbf=True, **kw)
    CHECK("high order collision constraint present", "chief_collision_hocbf" in z.constraints)
    CHECK("plain collision constraint replaced", "chief_collision" not in z.constraints)
    x = VEC("x", 8)
    R = d["chief_radius"] + d["deputy_radius"]
    h = norm(x[0:3]) - R
    f = dot(x[0:3], x[3:6]) / norm(x[0:3]) + poly([0, 0.1, 0, 0.1], h)
    constraint_is("chief_collision_hocbf", z.constraints["chief_collision_hocbf"], x, f, h, [0, 0.1, 0, 0.1], 0)


def inspection_filter(discrete, cfg, jit):
    """end to end on a subset of the constraints"""
    d, kw = insp_pars(cfg)
    use = ["x_vel", "z_vel"]
    lo, hi = bounds("both", 3)
    A, B = A3(d["n"]), B3(d["m"])
    cons = OrderedDict()
    cons["x_vel"] = axis_limit(3, d["vel_limit"], [0, 0.1, 0, 0.01], bias=-0.001)
    cons["z_vel"] = axis_limit(5, d["vel_limit"], [0, 0.1, 0, 0.01], bias=-0.001)
    rk = {"jit_enable": jit, "control_bounds_low": lo, "control_bounds_high": hi, "control_dim": 3}
    if discrete:
        z = i1.DiscreteInspection1v1RTA(control_bounds_low=lo, control_bounds_high=hi, constraints_to_use=use, jit_enable=jit, **kw)
        r = RefDA(cons, z.next_state_differentiable, **rk)
    else:
        z = i1.Inspection1v1RTA(control_bounds_low=lo, control_bounds_high=hi, constraints_to_use=use, jit_enable=jit, **kw)
        f = lambda s: jnp.concatenate((drift3(s, d["n"]), jnp.array([d["sun_vel"], 0])))
        g = lambda s: jnp.concatenate((jnp.array(B), jnp.zeros((2, 3))))
        r = RefEA(cons, f, g, **rk)
    CHECK_EQ("constraint names", list(z.constraints.keys()), use)
    pair(z, r, 8, 3, POS("dt"))


def inspection_short_state(jit):
    """a state without sun angle and fuel use is completed with zeros"""
    d, kw = insp_pars("symbolic")
    use = ["x_vel", "z_vel"]
    z = i1.Inspection1v1RTA(constraints_to_use=use, jit_enable=jit, **kw)
    r = i1.Inspection1v1RTA(constraints_to_use=use, jit_enable=jit, **kw)
    a = z.filter_control(ARR("x", 6), POS("dt"), ARR("u", 3))
    b = r.filter_control(np.array([ARR("x", 6)[i] for i in range(6)] + [0.0, 0.0]), POS("dt"), ARR("u", 3))
    CHECK_EQ("control", a, b)


def inspection_history(which, jit):
    """the filter of a full state does not depend on states filtered earlier"""
    use = ["x_vel"]
    if which == "1v1":
        z, r = i1.Inspection1v1RTA(constraints_to_use=use, jit_enable=jit), i1.Inspection1v1RTA(constraints_to_use=use, jit_enable=jit)
        n = 8
    else:
        z, r = i3.InspectionRTA(num_deputies=1, constraints_to_use=use, jit_enable=jit), i3.InspectionRTA(num_deputies=1, constraints_to_use=use, jit_enable=jit)
        n = 7
    z.filter_control(ARR("y", 6), POS("dt"), ARR("v", 3))
    y = VEC("x", n)
    CHECK_EQ("drift of a full state is independent of earlier short states", z.state_transition_system(y), r.state_transition_system(y))


def inspection_repeat(which, jit):
    """filtering full states leaves the model unchanged"""
    use = ["x_vel"]
    if which == "1v1":
        z, r = i1.Inspection1v1RTA(constraints_to_use=use, jit_enable=jit), i1.Inspection1v1RTA(constraints_to_use=use, jit_enable=jit)
        n = 8
    elif which == "discrete":
        z, r = i1.DiscreteInspection1v1RTA(constraints_to_use=use, jit_enable=jit), i1.DiscreteInspection1v1RTA(constraints_to_use=use, jit_enable=jit)
        n = 8
    else:
        z, r = i3.InspectionRTA(num_deputies=1, constraints_to_use=use, jit_enable=jit), i3.InspectionRTA(num_deputies=1, constraints_to_use=use, jit_enable=jit)
        n = 7
    z.filter_control(ARR("y", n), POS("dt"), ARR("v", 3))
    CHECK_EQ("control after an earlier call", z.filter_control(ARR("x", n), POS("dt"), ARR("u", 3)), r.filter_control(ARR("x", n), POS("dt"), ARR("u", 3)))
    CHECK_EQ("flag after an earlier call", z.intervening, r.intervening)


def inspection_nd(num, cfg, what):
    d, kw = insp_pars(cfg)
    z = i3.InspectionRTA(num_deputies=num, **kw)
    c = z.constraints
    x = VEC("x", 6 * num + 1)
    R, Rd = d["chief_radius"] + d["deputy_radius"], 2 * d["deputy_radius"]
    w = jnp.array([0, 0, d["sun_vel"]])
    k = sun(x[6 * num])
    if what == "set":
        names = ["chief_collision", "rel_vel", "chief_sun", "r_max", "PSM", "x_vel", "y_vel", "z_vel"]
        for i in range(1, num):
            names += ["deputy_collision_" + str(i), "deputy_sun_" + str(i), "deputy_PSM_" + str(i)]
        CHECK_SET("constraint names", list(c.keys()), names)
        same_params("chief collision", c["chief_collision"], {"collision_radius": R, "a_max": d["a"]})
        same_params("chief sun", c["chief_sun"], {"fov": d["fov"], "a_max": d["a"]})
        same_params("r_max", c["r_max"], {"r_max": d["r_max"], "a_max": d["a"]})
        same_params("PSM", c["PSM"], {"collision_radius": R, "dt": 1})
        for i in range(1, num):
            same_params("deputy collision", c["deputy_collision_" + str(i)], {"collision_radius": Rd, "a_max": d["a"]})
            same_params("deputy sun", c["deputy_sun_" + str(i)], {"fov": d["fov"], "a_max": d["a"]})
            same_params("deputy PSM", c["deputy_PSM_" + str(i)], {"collision_radius": Rd, "dt": 1})
        CHECK_EQ("control dimension", z.control_dim, 3)
        CHECK_EQ("default lower bound", z.control_bounds_low, -1)
        CHECK_EQ("default upper bound", z.control_bounds_high, 1)
    if what == "light":
        f = rel_vel(x, 3, d["v0"], d["v1"], d["v0_distance"])
        constraint_is("rel_vel", c["rel_vel"], x, f, f, [0, 0, 0, 0.1], -0.002)
        insp_vel_limits(c, x, d)
        constraint_is("chief_collision", c["chief_collision"], x, collision(x, R, d["a"]), norm(x[0:3]) - R, [0, 0.01, 0, 0.001], 0)
        constraint_is("r_max", c["r_max"], x, max_distance(x, d["r_max"], d["a"]), d["r_max"] - norm(x[0:3]), [0, 0.01, 0, 0.001], 0)
        for i in range(1, num):
            constraint_is("deputy_collision", c["deputy_collision_" + str(i)], x, deputy_collision(x, i, Rd, d["a"]), norm(x[0:3] - x[6 * i:6 * i + 3]) - Rd,
                          [0, 0.01, 0, 0.001], 0)
    if what == "sun":
        constraint_is("chief_sun", c["chief_sun"], x, cone(x[0:3], x[3:6], k, w, d["fov"], d["a"]), cone_phi(x[0:3], k, d["fov"]), [0, 0.001, 0, 0.0001], -0.001)
    if what == "dsun":
        i = num - 1
        dp, dv = x[0:3] - x[6 * i:6 * i + 3], x[3:6] - x[6 * i + 3:6 * i + 6]
        sg = 1 if dot(dp, k) >= 0 else -1
        constraint_is("deputy_sun", c["deputy_sun_" + str(i)], x, cone(sg * dp, sg * dv, k, w, d["fov"], d["a"]), cone_phi(sg * dp, k, d["fov"]), [0, 0, 0, 0.1], -0.001)
    if what == "psm":
        f = psm(x, d["n"], R, 1, 100)
        constraint_is("PSM", c["PSM"], x, f, f, [0, 0.01, 0, 0.001], 0)
    if what == "dpsm":
        f = psm_deputy(x, num - 1, d["n"], Rd, 1, 100)
        constraint_is("deputy_PSM", c["deputy_PSM_" + str(num - 1)], x, f, f, [0, 0.01, 0, 0.001], 0)
    if what == "dyn":
        f = [drift3(x[6 * i:6 * i + 6], d["n"]) for i in range(num)] + [jnp.array([d["sun_vel"]])]
        CHECK_EQ("drift of every deputy and of the sun", z.state_transition_system(x), jnp.concatenate(f))
        g = jnp.concatenate((jnp.zeros(3), VEC("u", 3) / d["m"], jnp.zeros(6 * (num - 1) + 1)))
        CHECK_EQ("only the first deputy is actuated", z.state_transition_input(x) @ VEC("u", 3), g)


def inspection_nd_filter(num, jit):
    d, kw = insp_pars("symbolic")
    use = ["x_vel", "y_vel"]
    lo, hi = bounds("both", 3)
    cons = OrderedDict()
    cons["x_vel"] = axis_limit(3, d["vel_limit"], [0, 0.1, 0, 0.01], bias=-0.001)
    cons["y_vel"] = axis_limit(4, d["vel_limit"], [0, 0.1, 0, 0.01], bias=-0.001)
    z = i3.InspectionRTA(num_deputies=num, control_bounds_low=lo, control_bounds_high=hi, constraints_to_use=use, jit_enable=jit, **kw)
    f = lambda s: jnp.concatenate([drift3(s[6 * i:6 * i + 6], d["n"]) for i in range(num)] + [jnp.array([d["sun_vel"]])])
    g = lambda s: jnp.concatenate((jnp.array(B3(d["m"])), jnp.zeros((6 * (num - 1) + 1, 3))))
    r = RefEA(cons, f, g, jit_enable=jit, control_bounds_low=lo, control_bounds_high=hi, control_dim=3)
    pair(z, r, 6 * num + 1, 3, POS("dt"))


# ------------------------------------------------------------------ combined
class Dep(U1):
    """any per-deputy filter with memory"""

    def compute_filtered_control(self, input_state, step_size, control_desired):
        self.intervening = UFBOOL("iv", input_state, step_size, control_desired, self.n)
        self.n = self.n + 1
        return UFVEC("k", 3, input_state, step_size, control_desired, self.n)


def combined(num, bnd):
    """each deputy is filtered from its own point of view; its control lands in its own slot"""
    lo, hi = bounds(bnd, 3 * num)
    dep = Dep("d")
    z = i3.CombinedInspectionRTA(num_deputies=num, deputy_rta=dep, control_bounds_low=lo, control_bounds_high=hi)
    dt = POS("dt")
    n = 0
    for s in range(2):
        xs, us = "x" + str(s) + "_", "u" + str(s) + "_"
        out = z.filter_control(ARR(xs, 6 * num + 1), dt, ARR(us, 3 * num))
        x, u = VEC(xs, 6 * num + 1), VEC(us, 3 * num)
        want, iv = [], False
        for i in range(num):
            order = [i] + [j for j in range(num) if j != i]
            own = jnp.concatenate([x[6 * j:6 * j + 6] for j in order] + [x[6 * num:]])
            ud = u[3 * i:3 * i + 3]
            iv = iv or UFBOOL("iv", own, dt, ud, n)
            n = n + 1
            k = UFVEC("k", 3, own, dt, ud, n)
            want += [k[0], k[1], k[2]]
        CHECK_EQ("controls of all deputies", out, clip(want, lo, hi))
        CHECK_EQ("intervening if any deputy is", z.intervening, iv)


def combined_reset(num):
    dep = Dep("d")
    z = i3.CombinedInspectionRTA(num_deputies=num, deputy_rta=dep)
    z.filter_control(ARR("y", 6 * num + 1), POS("dt"), ARR("v", 3 * num))
    z.reset()
    r = i3.CombinedInspectionRTA(num_deputies=num, deputy_rta=Dep("d"))
    a = z.filter_control(ARR("x", 6 * num + 1), POS("dt"), ARR("u", 3 * num))
    b = r.filter_control(ARR("x", 6 * num + 1), POS("dt"), ARR("u", 3 * num))
    CHECK_EQ("control after reset", a, b)
    CHECK_EQ("intervening after reset", z.intervening, r.intervening)


def combined_default(num):
    z, y = i3.CombinedInspectionRTA(num_deputies=num), i3.CombinedInspectionRTA(num_deputies=num)
    CHECK("default per-deputy filter is an inspection filter", isinstance(z.deputy_rta, i3.InspectionRTA))
    CHECK_EQ("for the same number of deputies", z.deputy_rta.num_deputies, num)
    CHECK("not shared between instances", z.deputy_rta is not y.deputy_rta)
    CHECK_EQ("default lower bound", z.control_bounds_low, -1)
    CHECK_EQ("default upper bound", z.control_bounds_high, 1)


# ------------------------------------------------------------------ delta-v
def dv_gains(m, n):
    A, B = A3(n), B3(m)
    Ai = np.concatenate((np.concatenate((A, np.zeros((6, 6))), axis=1), np.concatenate((np.eye(6), np.zeros((6, 6))), axis=1)), axis=0)
    Bi = np.concatenate((B, np.zeros((6, 3))), axis=0)
    P = scipy.linalg.solve_continuous_are(Ai, Bi, np.eye(12) * 1e-5, np.eye(3) * 1e5)
    return (np.linalg.inv(np.eye(3) * 1e5) @ np.transpose(Bi)) @ P


def dv_backup(K, x, e, dt, n):
    err = np.array([0, 0, 0, x[3] - n / 2 * x[1], x[4] + 2 * n * x[0], 0])
    u = -(K[:, 0:6] @ err) - K[:, 6:12] @ e
    return [min(max(u[i], -1), 1) for i in range(3)], e + err * dt


def dv_step(x, dt, u, m, n):
    d = drift3(x, n)
    v = [d[0], d[1], d[2], d[3] + u[0] / m, d[4] + u[1] / m, d[5] + u[2] / m, -n, (abs(u[0]) + abs(u[1]) + abs(u[2])) / m]
    return np.array([x[i] + v[i] * dt for i in range(8)])


def delta_v(steps, calls):
    """switches for good as soon as following the backup from the next state would exceed the fuel limit within the horizon"""
    m, n, lim = POS("m"), POS("n"), SYM("lim")
    lo, hi = bounds("both", 3)
    z = i1.SwitchingDeltaVLimitRTA(m=m, n=n, delta_v_limit=lim, n_steps=steps, control_bounds_low=lo, control_bounds_high=hi)
    K = dv_gains(m, n)
    on, e = False, np.zeros(6)
    dt = POS("dt")
    for k in range(calls):
        xs, us = "x" + str(k) + "_", "u" + str(k) + "_"
        out = z.filter_control(ARR(xs, 8), dt, ARR(us, 3))
        x, u = ARR(xs, 8), ARR(us, 3)
        if not on:
            p, pe = dv_step(x, dt, u, m, n), e
            for j in range(steps):
                ub, pe = dv_backup(K, p, pe, dt, n)
                p = dv_step(p, dt, ub, m, n)
                if p[7] > lim:
                    on = True
        if on:
            ub, e = dv_backup(K, x, e, dt, n)
            want = ub
        else:
            want = [u[0], u[1], u[2]]
        CHECK_EQ("control of call " + str(k), out, clip(want, lo, hi))
        CHECK_EQ("intervening of call " + str(k), z.intervening, on)


def delta_v_reset(steps):
    m, n, lim = POS("m"), POS("n"), SYM("lim")
    kw = {"m": m, "n": n, "delta_v_limit": lim, "n_steps": steps}
    z, r = i1.SwitchingDeltaVLimitRTA(**kw), i1.SwitchingDeltaVLimitRTA(**kw)
    z.filter_control(ARR("y", 8), POS("dt"), ARR("v", 3))
    z.reset()
    a = z.filter_control(ARR("x", 8), POS("dt"), ARR("u", 3))
    b = r.filter_control(ARR("x", 8), POS("dt"), ARR("u", 3))
    CHECK_EQ("control after reset", a, b)
    CHECK_EQ("intervening after reset", z.intervening, r.intervening)


def delta_v_defaults():
    z = i1.SwitchingDeltaVLimitRTA(m=POS("m"), n=POS("n"))
    CHECK_EQ("default limit", z.delta_v_limit, 20)
    CHECK_EQ("default lower bound", z.control_bounds_low, -1)
    CHECK_EQ("default upper bound", z.control_bounds_high, 1)


def zoo_cascade():
    z = i1.InspectionCascadedRTA()
    CHECK_EQ("two filters", len(z.rta_list), 2)
    CHECK("first the inspection filter", isinstance(z.rta_list[0], i1.Inspection1v1RTA))
    CHECK("then the fuel limit filter", isinstance(z.rta_list[1], i1.SwitchingDeltaVLimitRTA))


def zoo_make(which, **kw):
    """a ready-made module with its state and control dimension"""
    if which == "1v1":
        return i1.Inspection1v1RTA(constraints_to_use=["x_vel"], **kw), 8, 3
    if which == "1v1sun":
        return i1.Inspection1v1RTA(constraints_to_use=["chief_collision", "x_vel"], **kw), 8, 3
    if which == "1v1short":
        return i1.Inspection1v1RTA(constraints_to_use=["x_vel"], **kw), 6, 3
    if which == "discrete":
        return i1.DiscreteInspection1v1RTA(constraints_to_use=["x_vel"], **kw), 8, 3
    if which == "nd":
        return i3.InspectionRTA(num_deputies=2, constraints_to_use=["x_vel"], **kw), 13, 3
    if which == "deltav":
        return i1.SwitchingDeltaVLimitRTA(m=POS("m"), n=POS("n"), n_steps=1, **kw), 8, 3
    if which == "combined":
        return i3.CombinedInspectionRTA(num_deputies=1, deputy_rta=Dep("d"), **kw), 7, 3
    if which == "combined2":
        return i3.CombinedInspectionRTA(num_deputies=2, deputy_rta=Dep("d"), **kw), 13, 6
    k, kind = which[0:2], which[2:]
    if k == "n1":
        cls = {"ES": n1.Integrator1dDockingExplicitSwitchingRTA, "IS": n1.Integrator1dDockingImplicitSwitchingRTA,
               "EA": n1.Integrator1dDockingExplicitOptimizationRTA, "IA": n1.Integrator1dDockingImplicitOptimizationRTA}[kind]
        w = {"backup_window": 1} if kind[0] == "I" else {}
        return cls(**w, **kw), 2, 1
    if k == "d2":
        cls = {"ES": d2.Docking2dExplicitSwitchingRTA, "IS": d2.Docking2dImplicitSwitchingRTA,
               "EA": d2.Docking2dExplicitOptimizationRTA, "IA": d2.Docking2dImplicitOptimizationRTA}[kind]
    else:
        cls = {"ES": d3.Docking3dExplicitSwitchingRTA, "IS": d3.Docking3dImplicitSwitchingRTA,
               "EA": d3.Docking3dExplicitOptimizationRTA, "IA": d3.Docking3dImplicitOptimizationRTA}[kind]
    w = {"backup_window": 1} if kind[0] == "I" else {}
    return cls(constraints_to_use=["x_vel"], **w, **kw), 4 if k == "d2" else 6, 2 if k == "d2" else 3


def zoo_bounds(which):
    """bounds given to a ready-made module are the ones enforced"""
    lo, hi = bounds("both", 3)
    z, n, m = zoo_make(which, control_bounds_low=lo, control_bounds_high=hi)
    out = z.filter_control(ARR("x", n), 1, ARR("u", 3))
    for i in range(3):
        CHECK("component " + str(i) + " not below the lower bound", out[i] >= lo[i])
        CHECK("component " + str(i) + " not above the upper bound", out[i] <= hi[i])


def zoo_alias(which, bnd="none"):
    """ready-made modules leave the caller's data alone"""
    kw = {}
    if bnd == "both":
        lo, hi = bounds("both", zoo_make(which)[2])
        kw = {"control_bounds_low": lo, "control_bounds_high": hi}
    z, n, m = zoo_make(which, **kw)
    for k in range(2):
        s = str(k) + "_"
        x, u = ARR("x" + s, n), ARR("u" + s, m)
        out = z.filter_control(x, 1, u)
        CHECK_EQ("state not changed by call " + str(k), x, VEC("x" + s, n))
        CHECK_EQ("control not changed by call " + str(k), u, VEC("u" + s, m))
        CHECK("output does not share storage with the inputs", not ALIAS(out, u) and not ALIAS(out, x))
        keep = 1 * out
        x[0] = SYM("dirty")
        u[0] = SYM("dirty")
        CHECK_EQ("output of call " + str(k) + " unaffected by later writes", out, keep)
        out[0] = SYM("dirty")
        CHECK_EQ("logged actual control", z.generate_info()["control_actual"], keep)
        CHECK_EQ("logged desired control", z.generate_info()["control_desired"], VEC("u" + s, m))
    if bnd == "both":
        CHECK_EQ("lower bounds not changed", lo, VEC("lo", m))
        CHECK_EQ("upper bounds not changed", hi, VEC("hi", m))


def zoo_disabled(which):
    """a disabled ready-made module passes the desired control through"""
    lo, hi = bounds("both", zoo_make(which)[2])
    z, n, m = zoo_make(which, control_bounds_low=lo, control_bounds_high=hi)
    z.filter_control(ARR("y", n), 1, ARR("v", m))
    z.enable = False
    out = z.filter_control(ARR("x", n), 1, ARR("u", m))
    CHECK_EQ("disabled: desired control is returned", out, VEC("u", m))
    CHECK_EQ("disabled: not intervening", z.intervening, False)
    i = z.generate_info()
    CHECK_EQ("disabled: actual control logged", i["control_actual"], VEC("u", m))
    CHECK_EQ("disabled: desired control logged", i["control_desired"], VEC("u", m))
    CHECK_EQ("disabled: enabled flag logged", i["enable"], False)
    CHECK_EQ("disabled: intervening flag logged", i["intervening"], False)


def zoo_reset(which):
    """a reset ready-made module behaves as a new one"""
    z, n, m = zoo_make(which)
    f = zoo_make(which)[0]
    z.filter_control(ARR("y", n), 1, ARR("v", m))
    z.enable = False
    z.reset()
    CHECK_EQ("reset enables", z.enable, True)
    CHECK_EQ("reset clears intervening", z.intervening, False)
    for k in range(2):
        s = str(k) + "_"
        a = z.filter_control(ARR("x" + s, n), 1, ARR("u" + s, m))
        b = f.filter_control(ARR("x" + s, n), 1, ARR("u" + s, m))
        CHECK_EQ("control after reset, call " + str(k), a, b)
        CHECK_EQ("flag after reset, call " + str(k), z.intervening, f.intervening)
        p, q = z.generate_info(), f.generate_info()
        for key in q.keys():
            CHECK("info has " + key, key in p)
            if key in p:
                CHECK_EQ("info " + key + " after reset, call " + str(k), p[key], q[key])


def inspection_flow(cfg):
    """the state derivative of the one deputy model and the states predicted from it"""
    from jax.experimental.ode import odeint
    d, kw = insp_pars(cfg)
    z = i1.Inspection1v1RTA(**kw)
    x, u, dt = VEC("x", 8), VEC("u", 3), POS("dt")

    def dot6(s, w):
        return drift3(s, d["n"]) + jnp.concatenate((jnp.zeros(3), jnp.array([w[0] / d["m"], w[1] / d["m"], w[2] / d["m"]])))

    def dot8(s, w):
        return jnp.concatenate((dot6(s, w), jnp.array([d["sun_vel"], (abs(w[0]) + abs(w[1]) + abs(w[2])) / d["m"]])))
    CHECK_EQ("state derivative", z.compute_state_dot(x, SYM("t"), u), dot8(x, u))
    CHECK_EQ("relative motion derivative", z.compute_state_dot_cwh(x[0:6], SYM("t"), u), dot6(x, u))
    CHECK_EQ("predicted state", z._pred_state(x, dt, u), odeint(lambda s, t, w: dot8(s, w), x, jnp.array([0.0, dt]), u)[-1])
    CHECK_EQ("predicted relative motion", z._pred_state_cwh(x[0:6], dt, u), odeint(lambda s, t, w: dot6(s, w), x[0:6], jnp.array([0.0, dt]), u)[-1])


def zoo_history(which, calls):
    """many earlier calls leave no trace in what a ready-made module does"""
    z, n, m = zoo_make(which)
    f = zoo_make(which)[0]
    for k in range(calls):
        z.filter_control(np.array([float(10 * i + k) if i < n - 1 else 0.0 for i in range(n)]), 1, np.array([0.01 * (i + k) for i in range(m)]))
        CLEAR_EVENTS()
    a = z.filter_control(ARR("x", n), 1, ARR("u", m))
    b = f.filter_control(ARR("x", n), 1, ARR("u", m))
    CHECK_EQ("control after many calls", a, b)
    CHECK_EQ("flag after many calls", z.intervening, f.intervening)
    p, q = z.generate_info(), f.generate_info()
    for key in q.keys():
        CHECK("info has " + key, key in p)
        if key in p:
            CHECK_EQ("info " + key + " after many calls", p[key], q[key])
