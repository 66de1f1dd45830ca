"""Constraint algebra: bias, gradient, strengthening, high order constraints, ready-made limits."""
import numpy as np
import jax.numpy as jnp
from jax import grad
from spec_common import *
from run_time_assurance.constraint import (
    ConstraintMagnitudeStateLimit, ConstraintMaxStateLimit, ConstraintMinStateLimit, HOCBFConstraint, PolynomialConstraintStrengthener,
)


def h0(x):
    return UF("h_h1", x[0], x[1], SYM("p_h1"))


def bias(jit, prior=0):
    """the bias shifts the enforced value and nothing else"""
    c = H("h1", bias=SYM("b"), jit_enable=jit)
    x = VEC("x", 2)
    for k in range(prior):
        y = jnp.array([0.5 * k, 1.0])
        c(y, c.params), c.compute(y, c.params), c.phi(y, c.params), c.grad(y, c.params)
    CHECK_EQ("enforced value", c(x, c.params), h0(x) + SYM("b"))
    CHECK_EQ("compute", c.compute(x, c.params), h0(x) + SYM("b"))
    CHECK_EQ("physical value", c.phi(x, c.params), h0(x))
    CHECK_EQ("gradient", c.grad(x, c.params), grad(h0)(x))
    y = VEC("y", 2)
    CHECK_EQ("value at another state", c(y, {"p": SYM("q")}), UF("h_h1", y[0], y[1], SYM("q")) + SYM("b"))
    CHECK_EQ("gradient with other parameters", c.grad(y, {"p": SYM("q")}), grad(lambda s: UF("h_h1", s[0], s[1], SYM("q")))(y))
    d = H("h1", jit_enable=jit)
    CHECK_EQ("default bias is zero", d(x, d.params), h0(x))
    CHECK("enabled by default", d.enabled)
    CHECK("no slack by default", d.slack_priority_scale is None)


def strengthening():
    a = H("h1")
    v = SYM("v")
    CHECK_EQ("alpha", a.alpha(v), UF("alpha_h1", v))
    CHECK_EQ("default negative-side strengthening is ten times alpha", a.alpha_negative(v), 10 * UF("alpha_h1", v))
    b = H("h1", alpha_negative=Alpha("an"))
    CHECK_EQ("own negative-side strengthening", b.alpha_negative(v), UF("an", v))
    CHECK_EQ("alpha unaffected by the negative side", b.alpha(v), UF("alpha_h1", v))
    p = PolynomialConstraintStrengthener()
    CHECK_EQ("default polynomial is the identity", p(v), v)
    q = PolynomialConstraintStrengthener([2, 3, 5, 7])
    CHECK_EQ("polynomial strengthening", q(v), 2 + 3 * v + 5 * v ** 2 + 7 * v ** 3)
    s = PolynomialConstraintStrengthener([2, 3, 5, 7, 11, 13, 17, 19])
    CHECK_EQ("higher polynomial strengthening", s(v), 2 + 3 * v + 5 * v ** 2 + 7 * v ** 3 + 11 * v ** 4 + 13 * v ** 5 + 17 * v ** 6 + 19 * v ** 7)
    CHECK_EQ("polynomial strengthening is not changed by another one", q(v), 2 + 3 * v + 5 * v ** 2 + 7 * v ** 3)
    r = PolynomialConstraintStrengthener([0, 0.5])
    CHECK_EQ("linear strengthening", r(v), 0.5 * v)


def strengthening_rejects(which):
    raised = False
    try:
        if which == "tuple":
            PolynomialConstraintStrengthener((0, 1))
        else:
            PolynomialConstraintStrengthener([0, "a"])
    except AssertionError:
        raised = True
    CHECK("coefficients that are not a list of numbers are rejected", raised)


class NoAlpha(ConstraintModule):
    def _compute(self, state, params):
        return UF("h", state)


def alpha_required():
    for c in [NoAlpha(), NoAlpha(alpha=3)]:
        raised, neg = False, False
        try:
            c.alpha(SYM("v"))
        except AssertionError:
            raised = True
        try:
            c.alpha_negative(SYM("v"))
        except AssertionError:
            neg = True
        CHECK("a constraint without a strengthening function cannot be strengthened", raised)
        CHECK("nor on the negative side", neg)


def hocbf(degree, jit):
    """psi_0 = h, psi_(i+1) = grad psi_i . f + alpha(psi_i), enforced up to the relative degree"""
    h = H("h1", bias=SYM("b0"), jit_enable=jit)
    c = HOCBFConstraint(h, degree, f_sys, Alpha("a"), bias=SYM("b1"), jit_enable=jit)
    x = VEC("x", 2)

    def psi0(s):
        return h0(s) + SYM("b0")

    def psi1(s):
        return grad(h0)(s) @ f_sys(s) + UF("a", psi0(s))

    def psi2(s):
        return grad(psi1)(s) @ f_sys(s) + UF("a", psi1(s))

    def psi3(s):
        return grad(psi2)(s) @ f_sys(s) + UF("a", psi2(s))
    ref = psi0 if degree == 1 else psi1 if degree == 2 else psi2 if degree == 3 else psi3
    CHECK_EQ("enforced value", c(x, c.params), ref(x) + SYM("b1"))
    CHECK_EQ("gradient", c.grad(x, c.params), grad(ref)(x))
    CHECK_EQ("reported value is the original constraint", c.phi(x, c.params), h0(x))
    CHECK_EQ("strengthening", c.alpha(SYM("v")), UF("a", SYM("v")))
    CHECK_EQ("parameters of the original constraint", c.params["p"], SYM("p_h1"))
    h.params["p"] = SYM("newp")
    CHECK_EQ("parameter changes of the original constraint are seen", c.params["p"], SYM("newp"))


class Chain(ConstraintModule):
    """first state of a chain of integrators"""

    def _compute(self, state, params):
        return params["p"] - state[0]


def chain_f(state):
    return jnp.array([state[i + 1] for i in range(5)] + [UF("f5", state)])


def hocbf_chain(degree):
    """chain of integrators with linear strengthening: psi_i follows the recursion psi_(i+1) = psi_i' + k psi_i"""
    k = SYM("k")
    c = HOCBFConstraint(Chain(params={"p": SYM("p")}, alpha=PolynomialConstraintStrengthener([0, 1])), degree, chain_f, PolynomialConstraintStrengthener([0, k]))
    x = VEC("x", 6)
    co = [1]
    for j in range(degree - 1):
        co = [(co[i] * k if i < len(co) else 0) + (co[i - 1] if i > 0 else 0) for i in range(len(co) + 1)]
    want = co[0] * (SYM("p") - x[0])
    for i in range(1, len(co)):
        want = want - co[i] * x[i]
    CHECK_EQ("enforced value", c(x, c.params), want)
    CHECK_EQ("reported value is the original constraint", c.phi(x, c.params), SYM("p") - x[0])


def hocbf_kwargs():
    c = HOCBFConstraint(H("h1"), 2, f_sys, Alpha("a"), alpha_negative=Alpha("n"), bias_negative=SYM("bn"), slack_priority_scale=SYM("w"), enabled=False, keep_first=True,
                        skip_length=3)
    CHECK_EQ("negative strengthening forwarded", c.alpha_negative(SYM("v")), UF("n", SYM("v")))
    CHECK_EQ("negative bias forwarded", c.bias_negative, SYM("bn"))
    CHECK_EQ("slack forwarded", c.slack_priority_scale, SYM("w"))
    CHECK_EQ("enabled forwarded", c.enabled, False)


def limit(kind, idx, jit):
    v = SYM("limit")
    x = VEC("x", 3)
    if kind == "magnitude":
        c = ConstraintMagnitudeStateLimit(v, idx, jit_enable=jit)
        ref = v ** 2 - x[idx] ** 2
    elif kind == "max":
        c = ConstraintMaxStateLimit(v, idx, jit_enable=jit)
        ref = v - x[idx]
    else:
        c = ConstraintMinStateLimit(v, idx, jit_enable=jit)
        ref = x[idx] - v
    CHECK_EQ(kind + " limit value", c(x, c.params), ref)
    CHECK_EQ(kind + " limit reported value", c.phi(x, c.params), ref)
    CHECK_EQ(kind + " limit with changed parameter", c(x, {"limit_val": SYM("l2")}),
             SYM("l2") ** 2 - x[idx] ** 2 if kind == "magnitude" else SYM("l2") - x[idx] if kind == "max" else x[idx] - SYM("l2"))
    c.params["limit_val"] = SYM("l3")
    s = SYM("s")
    CHECK_EQ(kind + " limit default strengthening", c.alpha(s), 0.0005 * s + 0.001 * s ** 3)


def limit_kwargs(kind):
    kw = {"alpha": Alpha("a"), "bias": SYM("b"), "enabled": False, "slack_priority_scale": SYM("w")}
    if kind == "magnitude":
        c = ConstraintMagnitudeStateLimit(SYM("limit"), 1, **kw)
    elif kind == "max":
        c = ConstraintMaxStateLimit(SYM("limit"), 1, **kw)
    else:
        c = ConstraintMinStateLimit(SYM("limit"), 1, **kw)
    CHECK_EQ("own strengthening used", c.alpha(SYM("v")), UF("a", SYM("v")))
    CHECK_EQ("bias forwarded", c.bias, SYM("b"))
    CHECK_EQ("enabled forwarded", c.enabled, False)
    CHECK_EQ("slack forwarded", c.slack_priority_scale, SYM("w"))


def no_shared_defaults():
    """parameter dictionaries are not shared between instances"""
    a, b = NoAlpha(), NoAlpha()
    a.params["q"] = SYM("v")
    CHECK_EQ("default parameters are per instance", len(b.params), 0)


class PlainDirect(DirectInequalityConstraint):
    def ineq_weight(self, state, params):
        return UFVEC("w", 2, state)

    def ineq_constant(self, state, params):
        return UF("c", state)


def direct_defaults():
    a, b = PlainDirect(), PlainDirect()
    a.params["q"] = SYM("v")
    CHECK_EQ("default parameters are per instance", len(b.params), 0)
    CHECK("enabled by default", b.enabled)
    c = PlainDirect(params={"q": SYM("z")}, enabled=False)
    CHECK_EQ("parameters kept", c.params["q"], SYM("z"))
    CHECK_EQ("enabled flag kept", c.enabled, False)
