"""Shared most-general subclasses used by the clients."""
from collections import OrderedDict

import jax.numpy as jnp
import numpy as np

from run_time_assurance.constraint import ConstraintModule, ConstraintStrengthener, DirectInequalityConstraint
from run_time_assurance.controller import RTABackupController
from run_time_assurance.rta import (
    CascadedRTA, DiscreteASIFModule, ExplicitASIFModule, ExplicitSimplexModule, ImplicitASIFModule, ImplicitSimplexModule, RTAModule,
)


class Alpha(ConstraintStrengthener):
    """any strengthening function"""

    def __init__(self, name):
        self.name = name

    def __call__(self, x):
        return UF(self.name, x)


class H(ConstraintModule):
    """any differentiable constraint of state and one parameter"""

    def __init__(self, name, pname=None, **kw):
        self.name = name
        super().__init__(alpha=Alpha("alpha_" + name), params={"p": SYM("p_" + name) if pname is None else SYM(pname)}, **kw)

    def _compute(self, state, params):
        return UF("h_" + self.name, state, params["p"])


class Direct(DirectInequalityConstraint):
    """any direct inequality constraint"""

    def __init__(self, name, m, **kw):
        self.name = name
        self.m = m
        super().__init__(params={"p": SYM("p_" + name)}, **kw)

    def ineq_weight(self, state, params):
        return UFVEC("w_" + self.name, self.m, state, params["p"])

    def ineq_constant(self, state, params):
        return UF("c_" + self.name, state, params["p"])


class Backup(RTABackupController):
    """any memoryless backup controller"""

    def _generate_control(self, state, step_size, controller_state=None):
        return UFVEC("ub", 2, state, step_size), None


class StatefulBackup(RTABackupController):
    """any backup controller with internal state"""

    def _generate_control(self, state, step_size, controller_state=None):
        return UFVEC("ub", 2, state, step_size, controller_state), UFVEC("xb", 1, state, step_size, controller_state)


def f_sys(state):
    return UFVEC("f", 2, state)


def g_sys(state):
    return UFMAT("g", 2, 2, state)


def step_uf(state, step_size, control):
    return UFVEC("phi", 2, state, step_size, control)


def bounds(kind, m=2):
    """control bounds: none, low, high, both, scalar"""
    if kind == "none":
        return None, None
    if kind == "scalar":
        lo, hi = SYM("lo"), SYM("hi")
        ASSUME(lo <= hi)
        return lo, hi
    lo = ARR("lo", m)
    hi = ARR("hi", m)
    for i in range(m):
        ASSUME(lo[i] <= hi[i])
    if kind == "low":
        return lo, None
    if kind == "high":
        return None, hi
    if kind == "list":
        return [lo[i] for i in range(m)], [hi[i] for i in range(m)]
    return lo, hi


def warm(m, prior, dt):
    """earlier calls: up to three with any inputs, some with given inputs, or many in which no constraint acts"""
    old = []
    if prior > 30:
        for r in [m] + list(getattr(m, "rta_list", [])):
            for c in list(getattr(r, "constraints", {}).values()) + list(getattr(r, "direct_inequality_constraints", {}).values()):
                old.append((c, c.enabled))
                c.enabled = False
    for k in range(prior):
        if prior <= 3:
            m.filter_control(ARR("hx" + str(k) + "_", 2), dt, ARR("hu" + str(k) + "_", 2))
        else:
            m.filter_control(np.array([k * 0.25, 1.0]), dt, np.array([0.5, k * 0.125]))
        CLEAR_EVENTS()
    for c, e in old:
        c.enabled = e


def clip(u, lo, hi):
    """reference saturation"""
    out = []
    for i in range(len(u)):
        v = u[i]
        if lo is not None:
            b = lo if not hasattr(lo, "shape") else lo[i]
            v = max(v, b)
        if hi is not None:
            b = hi if not hasattr(hi, "shape") else hi[i]
            v = min(v, b)
        out.append(v)
    return np.array(out)
