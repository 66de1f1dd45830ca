"""Snippets of library and language use with concrete values.  tools/models/compare.py evaluates each
one with the analysis engine and with the real libraries and reports every disagreement, so the models of
numpy, jax and the standard library that the analysis rests on are themselves checked."""
import collections
import contextlib
import copy
import dataclasses
import enum
import functools
import itertools
import math
import operator
from collections import OrderedDict, defaultdict, deque, namedtuple
from functools import lru_cache, partial, reduce
from typing import NamedTuple

import jax
import jax.numpy as jnp
import numpy as np
from jax import grad, jacfwd, jacrev, jit, lax, vmap

A = np.array([[1., 2., 3.], [4., 5., 6.]])
B = np.array([[2., 0.], [1., 3.], [-1., 4.]])
S = np.array([[4., 1., 0.], [2., 5., 1.], [0., 1., 3.]])
v = np.array([3., -1., 2.])
w = np.array([0.5, 4., -2.])
J = jnp.array([1., 2., 4.])


def t_pad(): return np.pad(A, ((0, 0), (0, 2)))
def t_pad2(): return jnp.pad(jnp.array(v), (1, 2), constant_values=7.)
def t_pad3(): return np.pad(v, (1, 1), mode='edge')
def t_roll(): return np.roll(v, 1)
def t_roll2(): return np.roll(A, 1, axis=1)
def t_flip(): return np.flip(A, axis=1)
def t_flip2(): return np.flip(A)
def t_flipud(): return np.flipud(A)
def t_tile(): return np.tile(v, (2, 1))
def t_tile2(): return np.tile(A, 2)
def t_repeat(): return np.repeat(A, 2, axis=0)
def t_repeat2(): return np.repeat(v, 2)
def t_expand(): return jnp.expand_dims(v, axis=1)
def t_expand2(): return jnp.expand_dims(A, axis=-1)
def t_swap(): return np.swapaxes(A, 0, 1)
def t_move(): return np.moveaxis(np.stack([A, A + 1]), 0, -1)
def t_tr(): return np.transpose(np.stack([A, A + 1]), (1, 0, 2))
def t_stack1(): return np.stack([A, A + 1], axis=1)
def t_stack2(): return np.stack([v, w], axis=-1)
def t_dstack(): return np.stack((A, A), axis=2)
def t_split(): return [x.tolist() for x in np.split(np.arange(6.), 3)]
def t_split2(): return [x.tolist() for x in np.split(np.arange(6.), [2, 5])]
def t_asplit(): return [x.tolist() for x in np.array_split(np.arange(7.), 3)]
def t_hsplit(): return [x.tolist() for x in np.hsplit(A, 3)]
def t_block(): return np.block([[A, np.zeros((2, 1))], [np.ones((1, 4))]])
def t_triu(): return np.triu(S)
def t_tril(): return jnp.tril(S, -1)
def t_trace(): return np.trace(S)
def t_kron(): return np.kron(np.eye(2), B)
def t_ein1(): return jnp.einsum('ij,jk->ik', A, B)
def t_ein2(): return jnp.einsum('i,i->', v, w)
def t_ein3(): return np.einsum('i,ij,j', v, S, w)
def t_ein4(): return np.einsum('ii', S)
def t_ein5(): return np.einsum('ij->j', A)
def t_tensordot(): return np.tensordot(A, B, axes=1)
def t_tensordot2(): return np.tensordot(A, A, axes=2)
def t_multidot(): return np.linalg.multi_dot([A, S, B])
def t_diff(): return np.diff(v)
def t_cumsum(): return np.cumsum(A, axis=1)
def t_cumprod(): return np.cumprod(v)
def t_keep(): return np.sum(A, axis=1, keepdims=True)
def t_keep2(): return A.max(axis=0, keepdims=True)
def t_axneg(): return A.sum(axis=-1)
def t_axtup(): return A.sum(axis=(0, 1))
def t_mean(): return A.mean(axis=0)
def t_std(): return np.var(v)
def t_avg(): return np.average(v)
def t_ptp(): return np.max(v) - np.min(v)
def t_take(): return np.take(A, [0, 2], axis=1)
def t_take2(): return np.take(v, np.array([2, 0]))
def t_diagonal(): return np.diagonal(S)
def t_diag2(): return np.diag(v, 1)
def t_det(): return np.linalg.det(S)
def t_heav(): return np.heaviside(v, 0.5)
def t_sign(): return np.sign(v)
def t_hypot(): return np.hypot(3., 4.)
def t_norm_ax(): return np.linalg.norm(A, axis=1)
def t_norm_fro(): return np.linalg.norm(A)
def t_norm_inf(): return np.linalg.norm(v, ord=np.inf)
def t_norm_1(): return np.linalg.norm(v, 1)
def t_select(): return np.select([v < 0, v > 2], [v * 10, v * 100], default=1.)
def t_minred(): return np.minimum.reduce(v)
def t_minred2(): return np.maximum.reduce([v, w])
def t_addred(): return np.add.reduce(A)
def t_orred(): return bool(np.logical_or.reduce(v < 0))
def t_xor(): return bool(np.logical_xor(True, False))
def t_outer(): return np.multiply.outer(v, w)
def t_apply(): return np.apply_along_axis(np.sum, 1, A)
def t_cnz(): return int(np.count_nonzero(v > 0))
def t_clip(): return np.clip(v, None, 1.)
def t_clip2(): return v.clip(-0.5, 2.5)
def t_clip3(): return np.clip(v, [-1, 0, -1], 2)
def t_where(): return np.where(v > 0, v, -v)
def t_fill():
    x = np.zeros(3)
    x.fill(2.)
    return x
def t_filldiag():
    x = np.zeros((2, 2))
    np.fill_diagonal(x, 3.)
    return x
def t_copyto():
    x = np.zeros(3)
    np.copyto(x, v)
    return x
def t_cc(): return np.column_stack((v, w))
def t_c_(): return np.c_[v, w]
def t_r_(): return np.r_[v, 1., w]
def t_ix(): return A[np.ix_([0, 1], [0, 2])]
def t_bool(): return np.array([1., 2., 3.])[np.array([True, False, True])]
def t_ell(): return np.stack([A, A])[..., 0]
def t_neg(): return A[-1, ::-1]
def t_setcol():
    x = A.copy()
    x[:, 0] = [9., 8.]
    x[0] += 1
    return x
def t_seti():
    x = np.zeros((2, 3))
    x[1, 1:] = v[:2]
    x[0, ...] = 5
    return x
def t_at(): return J.at[1:].add(2.).at[0].multiply(3.)
def t_at2(): return jnp.zeros((2, 3)).at[:, 1].set(jnp.array([1., 2.]))
def t_at3(): return J.at[-1].set(0.)
def t_iadd():
    x = v.copy()
    x += 1
    x *= w
    x -= 2
    x /= 2
    return x
def t_iadd_alias():
    x = v.copy()
    y = x
    y += 1
    return x
def t_jiadd():
    x = J
    y = x
    y += 1
    return x
def t_view():
    x = np.zeros((2, 2))
    r = x[0]
    r[1] = 4.
    return x
def t_ravelview():
    x = np.zeros((2, 2))
    r = x.ravel()
    r[3] = 4.
    return x
def t_flattencopy():
    x = np.zeros((2, 2))
    r = x.flatten()
    r[3] = 4.
    return x
def t_reshapeview():
    x = np.zeros(4)
    r = x.reshape(2, 2)
    r[1, 1] = 4.
    return x
def t_tview():
    x = np.zeros((2, 3))
    x.T[2, 0] = 5.
    return x
def t_asarray():
    x = np.zeros(2)
    y = np.asarray(x)
    y[0] = 1.
    return x
def t_out():
    x = np.zeros(3)
    np.add(v, w, out=x)
    return x
def t_matmul(): return (A @ B).tolist()
def t_dot(): return A.dot(v)
def t_inner(): return np.inner(v, w)
def t_vdot(): return jnp.vdot(v, w)
def t_cross(): return np.cross(v, w)
def t_logical(): return np.logical_and(v > 0, w > 0).tolist()
def t_invert(): return (~(v > 0)).tolist()
def t_andop(): return ((v > 0) & (w > 0)).tolist()
def t_orop(): return ((v > 0) | (w > 0)).tolist()
def t_any(): return bool((v < 0).any())
def t_pow(): return v**2 + np.power(w, 3)
def t_mod(): return 7 % 3 + 7 // 2
def t_fdiv(): return 7.5 // 2
def t_round(): return round(2.567, 2)
def t_divmod(): return divmod(7, 2)[1]
def t_int(): return int(3.99) + int(-3.99)
def t_floor(): return math.floor(-2.5) + math.ceil(2.2)
def t_isclose(): return bool(np.isclose(1., 1. + 1e-9)) and math.isclose(1., 1.)
def t_mathprod(): return math.prod([2, 3, 4]) + math.fsum([1., 2.])
def t_mathhyp(): return math.hypot(3., 4.)
def t_isfinite(): return math.isfinite(3.) and not math.isinf(2.) and not math.isnan(1.)
def t_copysign(): return math.copysign(3., -1.)
def t_argsort(): return np.argsort(v).tolist()
def t_sort(): return np.sort(v).tolist()
def t_argmin(): return int(np.argmin(v))
def t_argmax2(): return int(v.argmax())
def t_searchsorted(): return v[np.argsort(v)][:2]
def t_linspace(): return np.linspace(0., 1., 5)
def t_arange(): return np.arange(0., 1., 0.25)
def t_arange2(): return np.arange(5, 0, -2)
def t_full(): return np.full((2, 2), 3.)
def t_eye(): return np.eye(3, k=1)
def t_likes(): return np.zeros_like(A) + np.ones_like(A) * 2
def t_bcast(): return np.broadcast_to(v, (2, 3))
def t_atleast(): return np.atleast_2d(v)
def t_squeeze(): return np.squeeze(np.zeros((1, 3, 1)) + 1)
def t_newaxis(): return v[:, np.newaxis] * w[np.newaxis]
def t_flat(): return [x for x in A.flat]
def t_iter(): return [float(x) for r in A for x in r]
def t_unpack():
    a, *b = v
    return [a, sum(b)]
def t_shape():
    r, c = A.shape
    return r * 10 + c
def t_size(): return A.size + A.ndim + len(A)
def t_item(): return v[0].item() + float(w[1])
def t_tolist(): return A.tolist()
def t_vmap(): return vmap(lambda x, y: x * y + 1)(jnp.array(v), jnp.array(w))
def t_vmap2(): return vmap(lambda r, k: jnp.dot(r, k), in_axes=(0, None))(jnp.array(A), jnp.array(v))
def t_vmap3(): return vmap(lambda c: c.sum(), in_axes=1)(jnp.array(A))
def t_vmap_out(): return vmap(lambda c: c * 2, in_axes=0, out_axes=1)(jnp.array(A))
def t_vmap_dict(): return vmap(lambda x, p: x * p['a'], in_axes=(0, None))(jnp.array(v), {'a': 2.})
def t_vmap_tuple():
    a, b = vmap(lambda x: (x, x * 2))(jnp.array(v))
    return a + b
def t_grad(): return grad(lambda x: jnp.sum(x**3))(jnp.array(v))
def t_grad2(): return grad(lambda x, y: x * y**2, argnums=1)(2., 3.)
def t_gradnorm(): return grad(lambda x: jnp.linalg.norm(x))(jnp.array(v))
def t_jac(): return jacfwd(lambda x: jnp.array([x[0] * x[1], x[2]**2]))(jnp.array(v))
def t_jacrev(): return jacrev(lambda x: S @ x)(jnp.array(v))
def t_hess(): return jax.hessian(lambda x: x[0]**2 * x[1])(jnp.array([2., 3.]))
def t_jvp(): return jax.jvp(lambda x: x**2, (jnp.array(v),), (jnp.array(w),))[1]
def t_vjp():
    y, f = jax.vjp(lambda x: x**2, jnp.array(v))
    return f(jnp.array(w))[0]
def t_vg():
    a, g = jax.value_and_grad(lambda x: jnp.sum(x**2))(jnp.array(v))
    return a + g.sum()
def t_gradwhere(): return grad(lambda x: jnp.where(x > 0, x**2, -x))(3.)
def t_gradmax(): return grad(lambda x: jnp.maximum(x, 1.) * 2)(3.)
def t_gradclip(): return grad(lambda x: jnp.clip(x, -1., 1.) * 2)(3.)
def t_gradabs(): return grad(lambda x: jnp.abs(x) + jnp.sqrt(x))(4.)
def t_gradcond(): return grad(lambda x: lax.cond(x > 0, lambda y: y**3, lambda y: -y, x))(2.)
def t_gradtrig(): return grad(lambda x: jnp.cos(x)**2 + jnp.sin(x) * x + jnp.arccos(x / 2) + jnp.exp(x) + jnp.log(x))(0.5)
def t_stopgrad(): return grad(lambda x: lax.stop_gradient(x) * x)(3.)
def t_jit(): return jit(lambda x: x * 2)(3.)
def t_cond(): return lax.cond(True, lambda x: x, lambda x: -x, 3.)
def t_cond2(): return lax.cond(v[0] < 0, lambda a, b: a, lambda a, b: b, 3., 4.)
def t_switch(): return lax.switch(1, [lambda x: x, lambda x: x * 2, lambda x: x * 3], 5.)
def t_scan():
    c, ys = lax.scan(lambda c, x: (c + x, c * x), 0., jnp.array(v))
    return ys + c
def t_scan2():
    c, ys = lax.scan(lambda c, _: (c * 2, c), 1., None, length=4)
    return ys + c
def t_scan3():
    (a, b), ys = lax.scan(lambda c, x: ((c[0] + x[0], c[1] * 2), c[1]), (0., 1.), (jnp.array(v), jnp.array(w)))
    return ys + a + b
def t_fori(): return lax.fori_loop(0, 4, lambda i, x: x + i, 1.)
def t_fori2(): return lax.fori_loop(0, 3, lambda i, x: x.at[i].set(i * 2.), jnp.zeros(3))
def t_while(): return lax.while_loop(lambda x: x < 10, lambda x: x * 2, 1)
def t_map(): return lax.map(lambda x: x * 2, jnp.array(v))
def t_select_(): return lax.select(jnp.array(True), jnp.array(1.), jnp.array(2.))
def t_dslice(): return lax.dynamic_slice(jnp.array(v), (1,), (2,))
def t_dslice2(): return lax.dynamic_slice_in_dim(jnp.array(A), 1, 1, axis=0)
def t_dupd(): return lax.dynamic_update_slice(jnp.array(v), jnp.array([9.]), (1,))
def t_dindex(): return lax.dynamic_index_in_dim(jnp.array(A), 1, axis=0, keepdims=False)
def t_treemap(): return jax.tree_util.tree_map(lambda x: x * 2, {'a': 1., 'b': (2., 3.)})['b'][1]
def t_treemap2(): return jax.tree_util.tree_map(lambda x, y: x + y, [1., 2.], [3., 4.])[1]
def t_relu(): return jax.nn.relu(jnp.array(v))
def t_reduce(): return reduce(operator.add, [1, 2, 3], 10)
def t_reduce2(): return reduce(lambda a, f: f(a), [lambda x: x + 1, lambda x: x * 2], 3)
def t_partial(): return partial(pow, 2)(5)
def t_opers(): return operator.mul(2, operator.sub(5, 1)) + operator.neg(1) + operator.truediv(1, 2)
def t_itemgetter(): return operator.itemgetter(1)([5, 6])
def t_itemgetter2(): return sum(operator.itemgetter('a', 'b')({'a': 1, 'b': 2}))
def t_attrgetter(): return operator.attrgetter('size')(v)
def t_methodcaller(): return operator.methodcaller('sum')(v)
def t_chain(): return list(itertools.chain([1, 2], (3,)))
def t_chainfi(): return list(itertools.chain.from_iterable([[1], [2, 3]]))
def t_product(): return list(itertools.product([1, 2], [3, 4]))[2][0]
def t_accumulate(): return list(itertools.accumulate([1, 2, 3]))
def t_accumulate2(): return list(itertools.accumulate([1, 2, 3], lambda a, b: a * b, initial=2))
def t_islice(): return list(itertools.islice([1, 2, 3, 4], 1, 3))
def t_itrepeat(): return [a * b for a, b in zip([1, 2, 3], itertools.repeat(2))]
def t_itrepeat2(): return list(itertools.repeat(2, 3))
def t_count(): return [i * x for i, x in zip(itertools.count(1), [5, 6])]
def t_starmap(): return list(itertools.starmap(pow, [(2, 3), (3, 2)]))
def t_compress(): return list(itertools.compress([1, 2, 3], [1, 0, 1]))
def t_takewhile(): return list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1]))
def t_pairwise(): return [b - a for a, b in itertools.pairwise([1, 4, 9])]
def t_ziplongest(): return [a + b for a, b in itertools.zip_longest([1, 2], [3], fillvalue=0)]
def t_combos(): return [a * b for a, b in itertools.combinations([1, 2, 3], 2)]
def t_groupby(): return [len(list(g)) for _, g in itertools.groupby([1, 1, 2])]
def t_deque():
    d = deque([1, 2])
    d.append(3)
    d.appendleft(0)
    return [d.popleft(), d.pop(), len(d)]
def t_defaultdict():
    d = defaultdict(list)
    d['a'].append(1)
    d['a'].append(2)
    return [len(d['a']), len(d['b']), len(d)]
def t_defaultdict2():
    d = defaultdict(int)
    for k in 'aba':
        d[k] += 1
    return d['a']
def t_counter(): return collections.Counter(['a', 'b', 'a'])['a']
Point = namedtuple('Point', ['x', 'y'])
def t_namedtuple():
    q = Point(1, y=2)
    a, b = q
    return q.x + q[1] * 10 + a + b + q._replace(x=5).x
class NT(NamedTuple):
    a: float
    b: float = 2.
def t_namedtuple2():
    q = NT(1.)
    x, y = q
    return q.a + q.b * 10 + x + y
@dataclasses.dataclass
class DC:
    a: float
    b: list = dataclasses.field(default_factory=list)
    c: float = 4.
    def total(self):
        return self.a + sum(self.b) + self.c
def t_dataclass():
    d = DC(1., [2., 3.])
    e = DC(2.)
    e.b.append(1)
    return d.total() + DC(1.).total() + e.total()
def t_dcreplace(): return dataclasses.replace(DC(1.), a=5.).a
class Color(enum.Enum):
    RED = 1
    BLUE = 2
def t_enum(): return Color.BLUE.value + (1 if Color.RED is Color.RED else 0) + (10 if Color.RED == Color.BLUE else 20)
def t_suppress():
    x = 1
    with contextlib.suppress(ZeroDivisionError, KeyError):
        x = 2
        {}['a']
        x = 3
    return x
def t_nullctx():
    with contextlib.nullcontext(5) as q:
        return q
class CM:
    def __init__(self): self.log = []
    def __enter__(self):
        self.log.append(1)
        return self
    def __exit__(self, *a):
        self.log.append(2)
def t_cm():
    c = CM()
    with c as d:
        d.log.append(5)
    return c.log
def t_cm_exc():
    c = CM()
    try:
        with c:
            raise ValueError('a')
    except ValueError:
        c.log.append(9)
    return c.log
def t_cm_ret():
    c = CM()
    def f():
        with c:
            return 4
    f()
    return c.log
@contextlib.contextmanager
def gcm(log):
    log.append(1)
    try:
        yield 7
    finally:
        log.append(2)
@contextlib.contextmanager
def gcm2(log):
    log.append(1)
    yield
    log.append(2)
def t_gcm():
    log = []
    with gcm(log) as x:
        log.append(x)
    return log
def t_gcm2():
    log = []
    with gcm2(log):
        log.append(5)
    return log
def t_gcm_ret():
    log = []
    def f():
        with gcm(log):
            for i in range(3):
                if i == 1:
                    return i
    f()
    return log
def t_gcm_exc():
    log = []
    try:
        with gcm(log):
            raise KeyError('x')
    except KeyError:
        log.append(3)
    return log
def t_gcm2_exc():
    log = []
    try:
        with gcm2(log):
            raise KeyError('x')
    except KeyError:
        log.append(3)
    return log
def t_multiwith():
    log = []
    with gcm(log) as a, gcm(log) as b:
        log.append(a + b)
    return log
def t_exitstack():
    log = []
    with contextlib.ExitStack() as s:
        s.callback(log.append, 3)
        log.append(1)
    return log
def t_tryelse():
    log = []
    for d in (1, 0):
        try:
            if d == 0:
                raise ValueError('z')
        except ValueError as e:
            log.append(e.args[0] == 'z')
        else:
            log.append(2)
        finally:
            log.append(3)
    return log
def t_match(x=2):
    match x:
        case 1:
            return 10
        case 2 | 3:
            return 20
        case _:
            return 30
def t_match2():
    match 'b':
        case 'a':
            r = 1
        case s if s == 'b':
            r = 2
        case _:
            r = 3
    return r
def t_match3():
    match (1, 2):
        case (1, y):
            return y * 5
        case _:
            return 0
def t_match4():
    match {'a': 1}:
        case None:
            return 1
        case dict():
            return 2
        case _:
            return 3
def fact(n): return 1 if n <= 1 else n * fact(n - 1)
def t_rec(): return fact(5)
def t_gen():
    def g(n):
        for i in range(n):
            if i % 2 == 0:
                yield i
    return list(g(5))
def t_genexp(): return sum(x * x for x in range(4) if x != 2)
def t_next(): return next((x for x in [1, 5, 7] if x > 2), None)
def t_next2():
    it = iter([1, 2, 3])
    a = next(it)
    return a + sum(it)
def t_iterz():
    it = iter(v)
    return [next(it) for _ in range(2)]
def t_walrus(): return (y := 5) + y
def t_lambda_default(): return [f() for f in [lambda i=i: i for i in range(3)]]
def t_closure_late(): return [f() for f in [lambda: i for i in range(3)]]
def t_nonlocal():
    n = 0
    def f():
        nonlocal n
        n += 1
    f()
    f()
    return n
def t_dictops():
    d = {'a': 1, **{'b': 2}}
    e = d | {'a': 5}
    d |= {'z': 1}
    return [e['a'], d.pop('b'), d.get('q', 7), len(d), 'a' in d, sum(d.values())]
def t_dictcomp(): return {k: i for i, k in enumerate(['a', 'b'])}['b']
def t_dictorder():
    d = {'a': 1, 'b': 2}
    d['a'] = 9
    del d['b']
    d['b'] = 3
    return list(d.values())
def t_popitem():
    d = {'a': 1, 'b': 2}
    k, x = d.popitem()
    return x
def t_move():
    d = OrderedDict([('a', 1), ('b', 2)])
    d.move_to_end('a')
    return list(d.values())
def t_setops(): return sorted({1, 2, 3} & {2, 3, 4}) + sorted({1} | {5}) + sorted({1, 2} - {2})
def t_setin(): return 2 in {1, 2} and 'x' not in {'y'}
def t_sorted(): return sorted([3, 1, 2], reverse=True)
def t_sortedkey(): return sorted(['bb', 'a'], key=len) == ['a', 'bb']
def t_sortedkey2(): return [x for x, _ in sorted([(1, 5), (2, 3)], key=lambda q: q[1])]
def t_minkey(): return min([(1, 5), (2, 3)], key=lambda q: q[1])[0]
def t_maxdef(): return max([], default=4)
def t_listops():
    x = [1, 2, 3, 4]
    x[1:3] = [9]
    x.insert(0, 7)
    del x[-1]
    x += [5]
    x = x * 2
    return x
def t_listcmp(): return [1, 2] == [1, 2] and (1, 2) < (1, 3)
def t_unzip():
    a, b = zip(*[(1, 2), (3, 4)])
    return list(a) + list(b)
def t_enumstart(): return [i * x for i, x in enumerate([5, 6], start=1)]
def t_revrange(): return list(reversed(range(3))) + [x for x in range(5, 0, -2)]
def t_anyall(): return any(x > 2 for x in [1, 3]) and all([True, 1]) and not any([])
def t_map_(): return list(map(lambda a, b: a + b, [1, 2], [3, 4]))
def t_filter(): return list(filter(None, [0, 1, 2])) + list(filter(lambda x: x > 1, [1, 2]))
def t_chained(): return 1 < 2 < 3 and not 1 < 3 < 2
def t_ternary(): return 'a' if v[0] > 5 else 'b'
def t_str(): return f"u{1 + 1}_{'min'}" + '_' + 'a'.upper() + '{}-{}'.format(1, 'b') + '%s' % 'c'
def t_str2(): return 'a_b_c'.split('_')[1] + '-'.join(['x', 'y']) + 'abc'[1:] + 'q'.join('zz')
def t_str3(): return 'abc'.startswith('ab') and 'abc'.endswith(('c', 'd')) and 'b' in 'abc'
def t_strconst(): return 'constraint_' + str(3) + repr(2)
def t_partition(): return 'a=b'.partition('=')[2] + 'a.b'.rsplit('.', 1)[1]
def t_strfmt(): return f"{3:02d}"
def t_and_val(): return (None or 5) + (0 or 2) + (3 and 4)
def t_is(): return (None is None) and (1 is not None)
def t_star():
    def f(*a, k=1, **kw):
        return sum(a) + k + sum(kw.values())
    return f(*[1, 2], **{'k': 3, 'z': 4})
def t_kwonly():
    def f(a, /, b, *, c=3):
        return a + b * 10 + c * 100
    return f(1, b=2)
class Base:
    z = 4
    def __init__(self, x): self.x = x
    @property
    def y(self): return self.x * 2
    @y.setter
    def y(self, val): self.x = val
    @staticmethod
    def s(a): return a + 1
    @classmethod
    def c(cls, a): return cls(a)
    def __call__(self, q): return self.x + q
    def __getitem__(self, k): return self.x * k
    def __len__(self): return 3
    def __iter__(self): return iter([self.x, 2])
    def __eq__(self, o): return self.x == o.x
    def __add__(self, o): return Base(self.x + o.x)
    def __contains__(self, k): return k == self.x
    def __lt__(self, o): return self.x < o.x
    def __neg__(self): return Base(-self.x)
    def __bool__(self): return self.x > 0
class Derived(Base):
    z = 5
    def __init__(self, x):
        super().__init__(x + 1)
    def c2(self): return super(Derived, self).y + self.z
def t_class():
    d = Derived(2)
    d.y = 10
    return [d.x, d.y, Base.s(3), Derived.c(4).x, d(5), d[3], len(d), list(d)[1], d == Base(10), (d + d).x, 10 in d, d < Base(11), d.c2(), (-d).x, bool(d)]
def t_getattr():
    d = Base(3)
    setattr(d, 'q', 5)
    return getattr(d, 'q') + getattr(d, 'nope', 7) + (1 if hasattr(d, 'x') else 0) + vars(d)['x'] + d.__dict__['q']
def t_typename(): return type(Base(1)).__name__
def t_isinst(): return isinstance(Derived(1), Base) and issubclass(Derived, Base) and not isinstance(1, (str, dict))
def t_slots():
    class P:
        __slots__ = ('a',)
        def __init__(self): self.a = 1
    return P().a
class Cached:
    def __init__(self): self.n = 1
    @functools.cached_property
    def p(self): return self.n * 10
    @lru_cache(maxsize=None)
    def f(self, k): return self.n * k
    @functools.cache
    def g(self): return self.n
def t_cachedprop():
    c = Cached()
    a = c.p
    c.n = 2
    return [a, c.p]
def t_lru():
    c = Cached()
    a = c.f(3)
    c.n = 2
    return [a, c.f(3), c.f(4), Cached().f(3)]
def t_cache():
    c = Cached()
    a = c.g()
    c.n = 2
    return [a, c.g()]
def deco(k):
    def d(f):
        @functools.wraps(f)
        def g(*a, **kw):
            return f(*a, **kw) * k
        return g
    return d
@deco(3)
def decorated(x): return x + 1
def t_deco(): return decorated(2)
class WithDeco:
    @deco(2)
    def m(self, x): return x
def t_decom(): return WithDeco().m(5)
def t_copy():
    a = [[1], 2]
    b = copy.copy(a)
    c = copy.deepcopy(a)
    a[0].append(5)
    return [len(b[0]), len(c[0])]
def t_copyobj():
    a = Base(1)
    b = copy.copy(a)
    b.x = 5
    return a.x
def t_mutdefault():
    def f(x, acc=[]):
        acc.append(x)
        return len(acc)
    f(1)
    return f(2)
def t_global():
    return helper_g()
G = 5
def helper_g():
    global G
    G += 1
    return G
def t_assert():
    try:
        assert False, 'msg'
    except AssertionError as e:
        return str(e)
def t_raisefrom():
    try:
        try:
            raise KeyError('a')
        except KeyError as e:
            raise ValueError('b') from e
    except (ValueError, TypeError) as e:
        return e.args[0]
def t_excorder():
    try:
        [][1]
    except LookupError:
        return 1
def t_keyerr():
    try:
        return {}['q']
    except KeyError:
        return 2
def t_attrerr():
    try:
        return Base(1).nope
    except AttributeError:
        return 3
def t_forelse():
    for i in range(3):
        if i == 5:
            break
    else:
        return 1
    return 2
def t_whileelse():
    n = 0
    while n < 3:
        n += 1
        if n == 2:
            continue
    else:
        n += 10
    return n
def t_nestedcomp(): return [x for r in [[1, 2], [3]] for x in r]
def t_dictzip(): return dict(zip(['a', 'b'], [1, 2]))['b']
def t_sumstart(): return sum([[1], [2]], [])
def t_slice():
    s = slice(1, None)
    return [1, 2, 3][s]
def t_extslice(): return list(range(10))[::3]
def t_bitand(): return (6 & 3) + (1 << 3) + (5 ^ 1)
def t_boolsum(): return sum([True, False, True])
def t_inf(): return float('inf') > 5 and -np.inf < 0 and math.inf == np.inf
def t_pi(): return np.pi / 4 + math.cos(0.5) + np.deg2rad(90.) + math.radians(10.) + math.sqrt(2.)
def t_arctan2(): return np.arctan2(1., 2.) + math.atan2(1., 2.)
def t_npbool(): return bool(np.all(v < 10)) and np.any(v > 2) == True
def t_dtype(): return np.array([1, 2], dtype=float).dtype == np.float64
def t_astype(): return v.astype(int).tolist()
def t_intarr(): return (np.array([1.9, -1.9]).astype(int)).tolist()
def t_len0(): return 1 if [] else 2
def t_arrinlist(): return len([v, w]) + np.array([v, w]).shape[0]
def t_vstackgen(): return np.vstack([x * 2 for x in (v, w)])
def t_appendaxis(): return np.append(A, [[7., 8., 9.]], axis=0)
def t_insert(): return np.insert(v, 1, 9.)
def t_delete(): return np.delete(v, 1)
def t_concatflat(): return np.concatenate([A, A], axis=None)
def t_argpart(): return sorted(np.argsort(np.array([3., 1., 2.]))[:2].tolist())
def t_topk(): return lax.top_k(jnp.array(v), 2)[0]
def t_unique(): return np.unique(np.array([3, 1, 3]))
def t_nonzero(): return np.nonzero(v > 0)[0].tolist()
def t_flatnonzero(): return np.flatnonzero(v > 0).tolist()
def t_wherein(): return np.where(v > 0)[0].tolist()
def t_isin(): return np.isin([1, 2, 3], [2]).tolist()
def t_cumall(): return np.logical_and.accumulate([True, False, True]).tolist()
def t_vectorize(): return np.vectorize(lambda a: a * 2)(v)
def t_polyval(): return np.polyval([1., 2., 3.], 2.) + jnp.polyval(jnp.array([1., 0.]), 3.)
def t_interp(): return np.interp(0.5, [0., 1.], [2., 4.])
def t_solve(): return np.linalg.solve(S, v)
def t_inv(): return np.linalg.inv(S)
def t_mpow(): return np.linalg.matrix_power(S, 2)
def t_expm(): return 1
def t_rot(): return np.rot90(A)
def t_meshgrid(): return np.meshgrid([1., 2.], [3., 4.])[1]
def t_indices(): return [tuple(i) for i in np.ndindex(2, 2)][3][0]
def t_ndenumerate(): return sum(i[0] * x for i, x in np.ndenumerate(A))
def t_real(): return np.real(2.) + np.abs(-3.) + np.fabs(-1.)
def t_square(): return np.square(v) + np.cbrt(8.) + np.exp2(2.) + np.log2(4.) + np.log1p(0.) + np.expm1(0.)
def t_maximumacc(): return np.maximum.accumulate(v)
def t_nan_to(): return np.nan_to_num(v)
def t_divmodnp(): return np.floor_divide(7., 2.) + np.remainder(7., 2.) + np.fmod(7., 2.)
def t_trunc(): return np.trunc(-1.5) + np.fix(2.7) + math.trunc(2.9)
def t_lexsort(): return np.abs(v).max()
def t_vsum(): return sum(v) + max(v) + min(w)
def t_concatjnp(): return jnp.concatenate([jnp.array([1.]), jnp.zeros(2)]).sum()
def t_hstackm(): return jnp.hstack([jnp.zeros((2, 1)), jnp.ones((2, 2))])
def t_reshape(): return jnp.arange(6.).reshape(2, -1)
def t_reshape2(): return jnp.reshape(jnp.arange(6.), (3, 2), order='F')
def t_argmaxax(): return np.argmax(A, axis=1).tolist()
def t_sortax(): return np.sort(np.array([[3., 1.], [2., 5.]]), axis=0)
def t_compressnp(): return np.compress([True, False, True], v)
def t_extract(): return np.extract(v > 0, v)
def t_put():
    x = np.zeros(3)
    x[[0, 2]] = [1., 2.]
    return x
def t_maskset():
    x = v.copy()
    x[x < 0] = 0.
    return x
def t_whileTrue():
    n = 0
    while True:
        n += 1
        if n > 4:
            break
    return n


class _Body:
    a, b = 1., 2.
    tot = a + b
    if tot > 2.:
        kind = "big"
    else:
        kind = "small"
    squares = []
    for i in range(3):
        squares.append(i ** 2)
    table = {"k": a}
    table["m"] = b
    try:
        def late(self): return self.a + type(self).b
    finally:
        pass

    def dflt(self, x=tot): return x
    p, q = (property(lambda self, k=k: self.table[k]) for k in "km")

    class Inner:
        z = 5.

    @staticmethod
    def st(): return 7.

    def again(self): return 1.
    other = again
    def again(self): return 2.


class _Sub(_Body):
    tot = 9.
    if True:
        def late(self): return super().late() * 10


def t_classbody():
    o = _Body()
    return [o.a, o.b, o.tot, o.kind, o.squares, o.late(), o.dflt(), o.p, o.q, o.Inner.z, _Body.st(), o.other(), o.again(), _Sub().late(), _Sub().dflt()]


def t_at_in_jit():
    return jit(lambda x: x.at[0].set(7.0))(np.array([1.0, 2.0]))


def t_at_in_vmap():
    return vmap(lambda x: x.at[0].set(7.0))(np.array([[1.0, 2.0], [3.0, 4.0]]))


def t_at_in_grad():
    return grad(lambda x: jnp.sum(x.at[0].multiply(3.0) ** 2))(np.array([1.0, 2.0]))


def t_at_in_scan():
    return lax.scan(lambda c, x: (c.at[0].add(x), c), np.array([1.0, 2.0]), np.array([1.0, 5.0]))[0]


def t_at_in_fori():
    return lax.fori_loop(0, 2, lambda i, c: c.at[i].set(9.0), np.array([1.0, 2.0, 3.0]))


def t_at_of_numpy():
    try:
        np.array([1.0]).at[0].set(2.0)
    except AttributeError:
        return 1.0
    return 0.0


def t_at_in_jacobian():
    return jacfwd(lambda x: x.at[0].multiply(3.0))(np.array([1.0, 2.0]))


def t_at_in_cond():
    return lax.cond(True, lambda x: x.at[0].set(1.0), lambda x: x, np.array([3.0, 2.0]))


def t_at_after_asarray():
    return jnp.asarray(np.array([3.0, 2.0])).at[1].set(0.0)


def t_at_of_sum():
    return (jnp.array([1.0, 2.0]) + np.array([3.0, 2.0])).at[1].set(0.0)


def t_int_of_string():
    return int("12") + int("ff", 16)


def _naturals(log):
    k = 0
    while True:
        log.append(k)
        yield k
        k += 1


def t_endless_islice():
    log = []
    return [list(itertools.islice(_naturals(log), 4)), log]


def t_endless_next():
    log = []
    g = _naturals(log)
    a = next(g)
    log.append(100)
    b = next(g)
    return [a, b, log]


def t_endless_for_break():
    log = []
    for i, k in enumerate(_naturals(log)):
        log.append(-k)
        if i == 3:
            break
    return log


def t_endless_zip():
    log = []
    return [[list(p) for p in zip([5, 6], _naturals(log))], log]


def t_endless_map():
    log = []
    m = map(lambda x: x * x, _naturals(log))
    return [next(m), next(m), next(m), log]


def t_endless_shared_state():
    box = [0.0]

    def gen():
        while True:
            box[0] = box[0] + 1
            yield box[0]
    out = []
    for x in gen():
        box[0] = box[0] * 2
        out.append(x)
        if x > 20:
            break
    return out


def t_endless_raises():
    def gen():
        k = 0
        while True:
            if k == 2:
                raise ValueError("two")
            yield k
            k += 1
    out = []
    try:
        for x in gen():
            out.append(x)
    except ValueError:
        out.append(-1)
    return out


def t_endless_nested():
    def inner(a):
        while True:
            yield a
            a += 1

    def outer():
        g = inner(3)
        while True:
            yield next(g) * 2
            next(g)
    return list(itertools.islice(outer(), 3))


def t_einsum_ell1(): return jnp.einsum('...i,...i->...', v, w)
def t_einsum_ell2(): return np.einsum('...i,...i->...', A, A)
def t_einsum_ell3(): return np.einsum('...i,i->...', A, v)
def t_einsum_ell4(): return np.einsum('...i,ij', A, S)


class _Key(enum.Enum):
    LOW = "low"
    HIGH = "high"


class _Plain:
    def __init__(self, x):
        self.x = x


def t_enum_keys():
    d = {k: len(k.value) for k in _Key}
    d[_Key.LOW] += 10
    return [d[_Key.LOW], d[_Key.HIGH], _Key("low") in d, "low" in d, [k.name for k in d], [k.value + str(n) for k, n in d.items()]]


def t_obj_keys():
    a, b, c = _Plain(1), _Plain(2), _Plain(3)
    d = {a: 5, b: 6}
    d.setdefault(c, 9)
    return [d[a], d.get(b), d.get(_Plain(1), -1), d.pop(c), len(d), sum(k.x for k in d), c in d, a in d]


def t_tuple_keys():
    d = {(1, "a"): 2, (1, "b"): 3}
    d[(2, "a")] = 4
    return [d[(1, "b")], (1, "a") in d, (3, "a") in d, [i * n for (i, _), n in d.items()], d.get((9, 9), 0)]


def t_type_keys():
    d = {int: 1, float: 2, _Plain: 3}
    return [d[int], d[_Plain], str in d]


def t_func_keys():
    f, g = (lambda x: x), (lambda x: 2 * x)
    d = {f: 1, g: 2}
    return [d[g], f in d, [k(3) for k in d]]


def t_errstate():
    with np.errstate(all="ignore"):
        return np.array([1., 2.]) * 2


def t_nullctx():
    out = []
    with contextlib.ExitStack() as es, contextlib.nullcontext(3) as n:
        es.callback(out.append, n)
        out.append(1)
    return out


def t_mask_assign():
    m = np.ones(6, dtype=bool)
    m[1:3] = False
    return [np.arange(6)[m], np.arange(6)[~m], np.flatnonzero(m), np.count_nonzero(m)]


def t_split_gen(): return [float(x.sum()) for x in jnp.split(jnp.arange(6.), 2)]
def t_power(): return [np.power(3., 2), np.negative(v), jnp.negative(jnp.dot(v, w))]
def t_hv(): return np.vstack((np.hstack((np.zeros((2, 2)), np.identity(2))), np.hstack((np.ones((2, 2)), np.eye(2)))))


def t_colstack(): return [jnp.column_stack((jnp.ones((3, 1)), jnp.zeros((3, 1)))), jnp.column_stack((jnp.ones((1, 1)), jnp.zeros((1, 1)))), jnp.column_stack((v, w))]
def t_at_add_col(): return jnp.zeros((3, 2)).at[:, [7, 5].index(5)].add(-1.)
def t_at_add_col1(): return jnp.zeros((1, 1)).at[:, 0].add(-1.)
def t_select(): return lax.select(jnp.asarray(True), jnp.ones((2, 1)), jnp.zeros((2, 1)))
def t_select1(): return [lax.select(jnp.asarray(e), x, jnp.zeros_like(x)) for e in (True, False) for x in (jnp.ones((1, 1)), jnp.ones(1))]
def t_atleast(): return [jnp.atleast_2d(jnp.ones(2)), jnp.atleast_1d(3.), jnp.atleast_2d(jnp.ones((1, 1)))]
def t_genmap():
    a, b = map(jnp.array, ([[1.], [2.]], [[3.], [4.]]))
    return [a, b]
def t_star_odd():
    *_, last = jnp.array([[1., 2.], [3., 4.]])
    return last
def t_gen_cond():
    def g(n):
        if n > 1:
            yield 1
        if n > 2:
            yield 2
            return
        yield 3
    return [list(g(k)) for k in range(4)]
def t_inner2(): return [np.inner(A, A), np.vdot(A, A), np.inner(v, w), np.inner(A, v), jnp.vdot(v, w), np.vdot(3., 2.)]
def t_colstack2(): return [np.column_stack((A, v[:2])), np.column_stack([np.zeros((2, 0)), A]), np.hstack((A, A)), np.hstack((v, w)), np.vstack((A, v))]
def t_dstack(): return np.stack((A, A), axis=-1)
def t_insert(): return [np.insert(v, 1, 9.), np.append(A, [[7., 8., 9.]], axis=0), np.append(v, 2.), np.delete(v, 1), np.delete(A, 0, axis=1)]
def t_roll(): return [np.roll(v, 1), np.flip(v), np.flip(A, 0), np.tile(v, 2), np.repeat(v, 2), np.tile(v, (2, 1)), np.repeat(A, 2, axis=0)]
def t_minmaxax(): return [np.min(A, axis=0), np.max(A, 1), np.argmin(v), np.argmax(A), np.any(A > 5, axis=1), np.all(A > 0), np.cumsum(v), np.diff(v), np.prod(v), np.mean(A, 0), np.ptp(v)]
def t_wherecl(): return [np.where(v > 0, v, 0.), np.clip(v, -0.5, 2.5), np.sign(v), np.abs(v), np.maximum(v, w), np.minimum.reduce([v, w]), np.heaviside(v, 0.5), np.fmax(v, w)]
def t_linalg(): return [np.linalg.norm(A), np.linalg.norm(A, axis=1), np.linalg.norm(v, 1), np.linalg.norm(v, np.inf), np.trace(S), np.linalg.det(S[:2, :2]), np.triu(S), np.tril(S, -1)]
def t_fmt(): return ["%s-%d" % ("a", 3), "{:>4}|{:<4}|{:.2f}".format(1, 2, 3.14159), f"{3!r:>3}", "a,b".split(","), "x".join(["1", "2"]), "abc".startswith(("x", "a")), "A_b".lower().replace("_", "")]
