"""One most-general instance of every module kind of the library."""
import numpy as np
import jax.numpy as jnp
from collections import OrderedDict
from spec_common import *
from spec_asif import EA


class ES(ExplicitSimplexModule):
    def __init__(self, cons, **kw):
        self.cons = cons
        super().__init__(**kw)

    def _setup_constraints(self):
        return OrderedDict([(c.name, c) for c in self.cons])

    def _pred_state(self, state, step_size, control):
        return step_uf(state, step_size, control)


class IS(ImplicitSimplexModule):
    def __init__(self, cons, **kw):
        self.cons = cons
        super().__init__(**kw)

    def _setup_constraints(self):
        return OrderedDict([(c.name, c) for c in self.cons])

    def _pred_state(self, state, step_size, control):
        return step_uf(state, step_size, control)


class IA(ImplicitASIFModule):
    def __init__(self, cons, direct=None, **kw):
        self.cons = cons
        self.direct = direct
        super().__init__(control_dim=2, **kw)

    def _setup_constraints(self):
        return OrderedDict([(c.name, c) for c in self.cons])

    def _setup_direct_constraints(self):
        return OrderedDict([(c.name, c) for c in self.direct or []])

    def state_transition_system(self, state):
        return f_sys(state)

    def state_transition_input(self, state):
        return g_sys(state)

    def _pred_state(self, state, step_size, control):
        return step_uf(state, step_size, control)


class DA(DiscreteASIFModule):
    def __init__(self, cons, **kw):
        self.cons = cons
        super().__init__(control_dim=2, **kw)

    def _setup_constraints(self):
        return OrderedDict([(c.name, c) for c in self.cons])

    def next_state_differentiable(self, state, step_size, control):
        return step_uf(state, step_size, control)


class CA(CascadedRTA):
    def __init__(self, mods, **kw):
        self.mods = mods
        super().__init__(**kw)

    def _setup_rta_list(self):
        return self.mods


KINDS = ("explicit_simplex", "implicit_simplex", "explicit_asif", "implicit_asif", "discrete_asif", "cascaded")


def make(kind, lo, hi, jit, window=1, **kw):
    if kind == "explicit_simplex":
        return ES([H("h1")], backup_controller=Backup(jit_enable=jit), control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit, latch_time=SYM("latch"), **kw)
    if kind == "stateful_simplex":
        return ES([H("h1")], backup_controller=StatefulBackup(jnp.array([SYM("c0")]), jit_enable=False), control_bounds_low=lo, control_bounds_high=hi,
                  jit_enable=False, latch_time=SYM("latch"), **kw)
    if kind == "implicit_simplex":
        m = IS([H("h1")], backup_window=POS("dt") * window, backup_controller=Backup(jit_enable=jit), control_bounds_low=lo, control_bounds_high=hi,
               jit_enable=jit, **kw)
        return m
    if kind == "stateful_implicit_simplex":
        return IS([H("h1")], backup_window=POS("dt") * window, backup_controller=StatefulBackup(jnp.array([SYM("c0")]), jit_enable=False),
                  control_bounds_low=lo, control_bounds_high=hi, jit_enable=False, **kw)
    if kind == "explicit_asif":
        return EA([H("h1")], [], control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit, **kw)
    if kind == "implicit_asif":
        return IA([H("h1")], [], backup_window=POS("dt") * window, backup_controller=Backup(jit_enable=jit), control_bounds_low=lo, control_bounds_high=hi,
                  jit_enable=jit, **kw)
    if kind == "stateful_implicit_asif":
        return IA([H("h1")], [], backup_window=POS("dt") * window, backup_controller=StatefulBackup(jnp.array([SYM("c0")]), jit_enable=False),
                  control_bounds_low=lo, control_bounds_high=hi, jit_enable=False, **kw)
    if kind == "discrete_asif":
        return DA([H("h1")], control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit, **kw)
    if kind == "cascaded":
        a = ES([H("h1")], backup_controller=Backup(jit_enable=jit), jit_enable=jit, latch_time=SYM("latch"))
        b = EA([H("h2")], [], jit_enable=jit)
        return CA([a, b], control_bounds_low=lo, control_bounds_high=hi)
    raise ValueError("kind")
