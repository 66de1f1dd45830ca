"""Arrays of concrete shape over value numbers (literal `seq` terms of scalars)."""
from __future__ import annotations

from functools import reduce

from . import vn
from .vn import T, Term, seq, ite, atom, truth, ZERO, ONE, NONE, TRUE, FALSE, num, opq, cint


class Unsupported(Exception):
    pass


class ShapeError(Exception):
    """the program would raise here (shape mismatch, index out of range)"""
    def __init__(self, msg="", kind="ValueError"):
        super().__init__(msg)
        self.kind = kind


def is_arr(t):
    return t.op == "seq"


def varshape(t):
    """a conditional whose alternatives have different shapes"""
    return t.op == "ite" and any(l.op in ("seq",) for _, l in _few_leaves(t))


def _few_leaves(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            stack.extend(x.args[1:])
        else:
            yield None, x


def shape(t):
    if t.op == "seq":
        if not t.args:
            return (0,)
        return (len(t.args),) + shape(t.args[0])
    return ()


def split(f):
    """lift f over arguments whose shape is conditional"""
    def g(*args, **kw):
        for a in args:
            if isinstance(a, Term) and a.op == "ite" and varshape(a):
                v = vn.min_atom(*[x for x in args if isinstance(x, Term) and x.op == "ite" and varshape(x)])
                x = g(*[vn.restrict(y, v, True) if isinstance(y, Term) else y for y in args], **kw)
                y = g(*[vn.restrict(y, v, False) if isinstance(y, Term) else y for y in args], **kw)
                if isinstance(x, tuple):
                    return tuple(ite(atom(v), p, q) for p, q in zip(x, y))
                return ite(atom(v), x, y)
        return f(*args, **kw)
    return g


class EArr:
    """empties keep trailing dims through this table (seq() with no items has shape (0,) + EMPTY_TAIL)"""


EMPTY = seq([])


def flat(t):
    if t.op == "seq":
        out = []
        for x in t.args:
            out.extend(flat(x))
        return out
    return [t]


def unflat(fl, shp):
    if not shp:
        return fl[0]
    if len(shp) == 1:
        return seq(fl[:shp[0]])
    n = reduce(lambda a, b: a * b, shp[1:], 1)
    return seq([unflat(fl[k * n:(k + 1) * n], shp[1:]) for k in range(shp[0])])


def broadcast_shape(*ss):
    n = max(len(s) for s in ss)
    out = []
    for k in range(1, n + 1):
        d = 1
        for s in ss:
            if len(s) >= k:
                x = s[-k]
                if x != 1:
                    if d != 1 and d != x:
                        raise ShapeError(f"broadcast {ss}")
                    d = x
        out.append(d)
    return tuple(reversed(out))


def broadcast_to(t, shp):
    s = shape(t)
    if s == shp:
        return t
    if not shp:
        if s == ():
            return t
        raise ShapeError("broadcast to scalar")
    if len(s) < len(shp):
        sub = broadcast_to(t, shp[1:])
        return seq([sub] * shp[0])
    if s[0] == shp[0]:
        return seq([broadcast_to(x, shp[1:]) for x in t.args])
    if s[0] == 1:
        x = broadcast_to(t.args[0], shp[1:])
        return seq([x] * shp[0])
    raise ShapeError(f"broadcast {s} to {shp}")


@split
def ew(f, *args):
    """elementwise with broadcasting"""
    if not any(a.op == "seq" for a in args):
        return f(*args)
    shp = broadcast_shape(*[shape(a) for a in args])
    return _ew(f, [broadcast_to(a, shp) for a in args])


def _ew(f, args):
    if args[0].op == "seq":
        return seq([_ew(f, [a.args[k] for a in args]) for k in range(len(args[0].args))])
    return f(*args)


def add(a, b):
    return ew(vn.add, a, b)


def sub(a, b):
    return ew(vn.sub, a, b)


def mul(a, b):
    return ew(vn.mul, a, b)


def div(a, b):
    return ew(vn.div, a, b)


def power(a, b):
    return ew(vn.power, a, b)


def neg(a):
    return ew(vn.neg, a)


def where(c, a, b):
    return ew(lambda c, a, b: ite(vn.truth(c), a, b), c, a, b)


@split
def transpose(t):
    s = shape(t)
    if len(s) < 2:
        return t
    if len(s) != 2:
        raise Unsupported("transpose of rank > 2")
    return seq([seq([t.args[i].args[j] for i in range(s[0])]) for j in range(s[1])])


@split
def matmul(a, b):
    sa, sb = shape(a), shape(b)
    if not sa or not sb:
        raise ShapeError("matmul of scalar")
    if len(sa) == 1 and len(sb) == 1:
        if sa != sb:
            raise ShapeError(f"matmul {sa} {sb}")
        return dotv(a.args, b.args)
    if len(sa) == 2 and len(sb) == 1:
        if sa[1] != sb[0]:
            raise ShapeError(f"matmul {sa} {sb}")
        return seq([dotv(r.args, b.args) for r in a.args])
    if len(sa) == 1 and len(sb) == 2:
        if sa[0] != sb[0]:
            raise ShapeError(f"matmul {sa} {sb}")
        return seq([dotv(a.args, [r.args[j] for r in b.args]) for j in range(sb[1])])
    if len(sa) == 2 and len(sb) == 2:
        if sa[1] != sb[0]:
            raise ShapeError(f"matmul {sa} {sb}")
        cols = [[r.args[j] for r in b.args] for j in range(sb[1])]
        return seq([seq([dotv(r.args, c) for c in cols]) for r in a.args])
    from . import nd
    return nd.matmul_nd(a, b)


def dotv(xs, ys):
    r = ZERO
    for x, y in zip(xs, ys):
        r = vn.add(r, vn.mul(x, y))
    return r


def full(dims, v):
    if not dims:
        return v
    return seq([full(dims[1:], v)] * dims[0]) if dims[0] > 0 else EMPTY


def eye(n, m=None):
    m = n if m is None else m
    return seq([seq([ONE if i == j else ZERO for j in range(m)]) for i in range(n)])


@split
def diag(t):
    s = shape(t)
    if len(s) == 1:
        return seq([seq([t.args[i] if i == j else ZERO for j in range(s[0])]) for i in range(s[0])])
    return seq([t.args[i].args[i] for i in range(min(s))])


def concatenate(ts, axis=0):
    return _concat(*ts, axis=axis)


@split
def _concat(*ts, axis=0):
    ts = list(ts)
    if axis is None:
        return seq([x for t in ts for x in flat(t)])
    rank = max(len(shape(t)) for t in ts)
    if axis < 0:
        axis += rank
    if axis == 0:
        out = []
        for t in ts:
            if t.op != "seq":
                raise ShapeError("zero-dimensional arrays cannot be concatenated")
            out.extend(t.args)
        tails = {shape(x) for x in out}
        if len(tails) > 1:
            if (0,) in tails:
                raise Unsupported("concatenation with a part of unknown width")
            raise ShapeError(f"concatenate {tails}")
        return seq(out)
    # matrices with zero rows are EMPTY: their width is unknown and harmless
    nz = [t for t in ts if t.args]
    if not nz:
        return EMPTY
    if len({len(t.args) for t in nz}) != 1:
        raise ShapeError("concatenate axis 1")
    ts = nz
    n = len(nz[0].args)
    return seq([_concat(*[t.args[k] for t in ts], axis=axis - 1) for k in range(n)])


@split
def vstack2(*ts):
    ts = [t if len(shape(t)) >= 2 or not t.args else seq([t]) for t in ts]
    ts = [seq([x]) if x.op != "seq" else x for x in ts]
    return _concat(*ts, axis=0)


@split
def hstack2(*ts):
    ts = [seq([t]) if t.op != "seq" else t for t in ts]
    if max(len(shape(t)) for t in ts) == 1:
        return _concat(*ts, axis=0)
    return _concat(*ts, axis=1)


def stack(ts, axis=0):
    if len({shape(t) for t in ts}) > 1:
        raise ShapeError("stack")
    if axis == 0:
        return seq(ts)
    if axis in (1, -1) and all(len(shape(t)) == 1 for t in ts):
        return transpose(seq(ts))
    raise Unsupported("stack axis")


@split
def append(a, b, axis=None):
    if axis is None:
        return seq(flat(a) + flat(b))
    return _concat(a, b, axis=axis)


@split
def reshape(t, shp):
    fl = flat(t)
    shp = list(shp)
    if -1 in shp:
        k = 1
        for d in shp:
            if d != -1:
                k *= d
        shp[shp.index(-1)] = len(fl) // k if k else 0
    n = 1
    for d in shp:
        n *= d
    if n != len(fl):
        raise ShapeError("reshape")
    return unflat(fl, tuple(shp))


def reduce_axis(f, t, axis=None):
    return _red(t, f=f, axis=axis)


@split
def _red(t, f=None, axis=None):
    if axis is None or t.op != "seq":
        return f(flat(t))
    r = len(shape(t))
    if axis < 0:
        axis += r
    if axis == 0:
        if r == 1:
            return f(list(t.args))
        n = len(t.args[0].args)
        return seq([_red(seq([row.args[j] for row in t.args]), f=f, axis=0) for j in range(n)])
    return seq([_red(x, f=f, axis=axis - 1) for x in t.args])


def fsum(xs):
    r = ZERO
    for x in xs:
        r = vn.add(r, x)
    return r


def fmin(xs):
    if not xs:
        raise ShapeError("min of empty")
    return vn.minmax("min", xs)


def fmax(xs):
    if not xs:
        raise ShapeError("max of empty")
    return vn.minmax("max", xs)


def fany(xs):
    return vn.bor(*xs) if xs else FALSE


def fall(xs):
    return vn.band(*xs) if xs else TRUE


def fprod(xs):
    r = ONE
    for x in xs:
        r = vn.mul(r, x)
    return r


def norm(t, axis=None):
    return reduce_axis(lambda xs: vn.sqrt(fsum([vn.mul(x, x) for x in xs])), t, axis)


@split
def cross(a, b):
    x, y = a.args, b.args
    if len(x) == 3 and len(y) == 3:
        def m(i, j):
            return vn.sub(vn.mul(x[i], y[j]), vn.mul(x[j], y[i]))
        return seq([m(1, 2), m(2, 0), m(0, 1)])
    raise Unsupported("cross")


def dot(a, b):
    if not is_arr(a) and not varshape(a) or not is_arr(b) and not varshape(b):
        return mul(a, b)
    return matmul(a, b)


# ------------------------------------------------------------- indexing
class NewAxis:
    pass


def gather(t, i):
    """t[i] for a scalar index term (possibly symbolic)"""
    if t.op == "ite" and varshape(t):
        v = t.args[0]
        return ite(atom(v), gather(t.args[1], vn.restrict(i, v, True)), gather(t.args[2], vn.restrict(i, v, False)))
    if t.op != "seq":
        if t.op == "opq":
            return opq("index of unknown", t, i)
        raise ShapeError("index of scalar", "IndexError")
    k = cint(i)
    n = len(t.args)
    if k is not None:
        if not -n <= k < n:
            raise ShapeError("index out of range", "IndexError")
        return t.args[k]
    if i.op == "ite":
        v = i.args[0]
        return ite(atom(v), gather(t, i.args[1]), gather(t, i.args[2]))
    if n == 0:
        raise ShapeError("index into empty", "IndexError")
    r = t.args[-1]
    for j in range(n - 2, -1, -1):
        r = ite(vn.eq(i, num(j)), t.args[j], r)
    return r


def clamp_slice(lo, hi, step, n):
    """concrete python slice bounds -> range; raises Unsupported when symbolic"""
    def c(x):
        if x is None or x is NONE:
            return None
        k = cint(x)
        if k is None:
            raise Unsupported("symbolic slice")
        return k
    return range(n)[slice(c(lo), c(hi), c(step))]


@split
def _index(t, path=()):
    return _index_raw(t, path)


def _lift_idx(f, t, path, *more):
    """hoist conditionals out of index expressions"""
    for e in path:
        for x in (e if isinstance(e, tuple) else (e,)):
            if isinstance(x, Term) and x.op == "ite":
                v = x.args[0]

                def r(val):
                    p = tuple(tuple(vn.restrict(y, v, val) if isinstance(y, Term) else y for y in e2) if isinstance(e2, tuple)
                              else (vn.restrict(e2, v, val) if isinstance(e2, Term) else e2) for e2 in path)
                    return _lift_idx(f, vn.restrict(t, v, val), p, *[vn.restrict(m, v, val) for m in more])
                return ite(atom(v), r(True), r(False))
    if t.op == "ite" and varshape(t):
        v = t.args[0]
        return ite(atom(v), _lift_idx(f, t.args[1], path, *[vn.restrict(m, v, True) for m in more]),
                   _lift_idx(f, t.args[2], path, *[vn.restrict(m, v, False) for m in more]))
    return f(t, path, *more)


def index(t, path):
    """path: tuple of Term (int index or index array), ('sl', lo, hi, step), NewAxis, Ellipsis"""
    return _lift_idx(_index_raw, t, tuple(path))


def _expand(t, path):
    if any(p is Ellipsis for p in path):
        r = len(shape(t))
        used = sum(1 for p in path if p is not Ellipsis and p is not NewAxis)
        k = [i for i, p in enumerate(path) if p is Ellipsis][0]
        path = path[:k] + (("sl", NONE, NONE, NONE),) * (r - used) + path[k + 1:]
    return path


def _is_mask(p):
    return isinstance(p, Term) and p.op == "seq" and bool(p.args) and all(vn.is_bool(x) for x in flat(p))


def _advanced(path):
    """positions of index arrays that are combined with another index array or an integer"""
    ix = [k for k, p in enumerate(path) if isinstance(p, Term) and p.op == "seq"]
    if not ix or any(_is_mask(path[k]) and len(shape(path[k])) > 1 for k in ix):
        return None
    adv = [k for k, p in enumerate(path) if isinstance(p, Term)]
    return adv if len(adv) > 1 else None


def _points(path, adv):
    """numpy's combination of index arrays: (common shape, list of paths with integers in their place)"""
    arrs = []
    for k in adv:
        p = path[k]
        if _is_mask(p):
            if any(x.op != "bool" for x in p.args):
                raise Unsupported("boolean mask with another index")
            p = seq([num(j) for j, x in enumerate(p.args) if x is TRUE])
        arrs.append(p)
    s = broadcast_shape(*[shape(a) for a in arrs])
    fl = [flat(broadcast_to(a, s)) for a in arrs]
    n = 1
    for d in s:
        n *= d
    out = []
    for j in range(n):
        q = list(path)
        for k, v in zip(adv, fl):
            q[k] = v[j]
        out.append(tuple(q))
    return s, out


def _masked(items, guards):
    for g in guards:
        if g.op != "bool":
            v = vn.min_atom(*[h for h in guards if h.op != "bool"])

            def r(val):
                return _masked([vn.restrict(x, v, val) for x in items], [vn.restrict(h, v, val) for h in guards])
            return ite(atom(v), r(True), r(False))
    return seq([x for x, g in zip(items, guards) if g is TRUE])


def _index_raw(t, path):
    path = _expand(t, path)
    if not path:
        return t
    adv = _advanced(path)
    if adv is not None:
        s, pts = _points(path, adv)
        vals = [_index_raw(t, q) for q in pts]
        if not vals:
            raise Unsupported("empty index arrays")
        r = seq(vals)
        rest = shape(vals[0])
        r = unflat(flat(r), tuple(s) + rest)
        lead = sum(1 for p in path[:adv[0]])
        if lead and adv[-1] - adv[0] == len(adv) - 1:
            from . import nd
            n, m = len(s), len(s) + len(rest)
            r = nd.moveaxes(r, [n + j for j in range(lead)] + list(range(n)) + list(range(n + lead, m)))
        return r
    p, rest = path[0], path[1:]
    if p is NewAxis:
        return seq([_index_raw(t, rest)])
    if t.op == "opq":
        return opq("index of unknown", t)
    if t.op != "seq":
        raise ShapeError("too many indices", "IndexError")
    if isinstance(p, tuple) and p[0] == "sl":
        rng = clamp_slice(p[1], p[2], p[3], len(t.args))
        return seq([_index_raw(t.args[k], rest) for k in rng])
    if isinstance(p, Term) and p.op == "seq":
        if _is_mask(p):
            sh = shape(p)
            if shape(t)[:len(sh)] != sh:
                raise ShapeError("boolean index", "IndexError")
            if len(sh) > 1:
                if rest or len(shape(t)) != len(sh):
                    raise Unsupported("boolean mask")
                return _masked(flat(t), flat(p))
            if rest:
                if any(x.op != "bool" for x in p.args):
                    raise Unsupported("boolean mask")
                return seq([_index_raw(t.args[k], rest) for k, x in enumerate(p.args) if x is TRUE])
            return _masked(list(t.args), list(p.args))
        return seq([_index_raw(t, (i,) + rest) for i in p.args])
    return _index_raw(gather(t, p), rest)


def iset(t, path, v, op=None):
    """functional update t[path] = v (op: combine old,new)"""
    return _lift_idx(lambda t, p, v: _iset_raw(t, p, v, op), t, tuple(path), v)


def _iset_raw(t, path, v, op):
    path = _expand(t, path)
    if not path:
        s = shape(t)
        if v.op == "ite" and varshape(v):
            raise Unsupported("conditional shape in assignment")
        if op is not None:
            return ew(op, t, v)
        if s == () and shape(v) == (1,):
            return v.args[0]
        return broadcast_to(v, s)
    p, rest = path[0], path[1:]
    if p is NewAxis:
        sh = shape(v)
        return _iset_raw(t, rest, v.args[0] if v.op == "seq" and len(sh) > len(shape(t)) and sh[0] == 1 else v, op)
    if t.op != "seq":
        raise ShapeError("too many indices", "IndexError")
    if _is_mask(p) and not rest:
        sh = shape(p)
        if shape(t)[:len(sh)] != sh:
            raise ShapeError("boolean index", "IndexError")
        if all(x.op == "bool" for x in flat(p)):
            its, ms = (list(t.args), list(p.args)) if len(sh) == 1 else (flat(t), flat(p))
            hit = [k for k, m in enumerate(ms) if m is TRUE]
            if hit:
                vv = broadcast_to(v, (len(hit),) + shape(its[0]))
                for j, k in enumerate(hit):
                    its[k] = _iset_raw(its[k], (), vv.args[j], op)
            return seq(its) if len(sh) == 1 else unflat(its, shape(t))
        if len(sh) != len(shape(t)) and shape(v) != () or shape(v) not in ((), (1,)):
            raise Unsupported("assignment of an array through a boolean mask")
        w = flat(v)[0]
        if len(sh) == len(shape(t)):
            return _ew(lambda m, x: ite(truth(m), w if op is None else op(x, w), x), [p, t])
        return seq([ite(truth(m), ew(lambda x: w if op is None else op(x, w), x), x) for m, x in zip(p.args, t.args)])
    adv = _advanced(path)
    if adv is not None:
        s, pts = _points(path, adv)
        if any(isinstance(q, tuple) for q in path):
            raise Unsupported("assignment through index arrays and slices")
        vv = flat(broadcast_to(v, tuple(s) + shape(_index_raw(t, pts[0])))) if pts else []
        sub = len(vv) // len(pts) if pts else 0
        for j, q in enumerate(pts):
            cur = _index_raw(t, q)
            t = _iset_raw(t, q, unflat(vv[j * sub:(j + 1) * sub], shape(cur)) if cur.op == "seq" else vv[j], op)
        return t
    its = list(t.args)
    if isinstance(p, tuple) and p[0] == "sl":
        rng = list(clamp_slice(p[1], p[2], p[3], len(its)))
        # shape of the selection
        sel = _index_raw(t, path) if rng else EMPTY
        vv = broadcast_to(v, shape(sel)) if rng else v
        for j, k in enumerate(rng):
            its[k] = _iset_raw(its[k], rest, vv.args[j] if vv.op == "seq" else vv, op)
        return seq(its)
    if isinstance(p, Term) and p.op == "seq":
        sel = _index_raw(t, path)
        vv = broadcast_to(v, shape(sel))
        for j, i in enumerate(p.args):
            k = cint(i)
            if k is None:
                raise Unsupported("scatter at symbolic index array")
            its[k] = _iset_raw(its[k], rest, vv.args[j], op)
        return seq(its)
    k = cint(p)
    if k is not None:
        if not -len(its) <= k < len(its):
            # jax drops out-of-bound scatters; numpy raises
            raise ShapeError("index out of range", "IndexError")
        its[k] = _iset_raw(its[k], rest, v, op)
        return seq(its)
    for k in range(len(its)):
        its[k] = ite(vn.eq(p, num(k)), _iset_raw(its[k], rest, v, op), its[k])
    return seq(its)


def linspace(a, b, n):
    if n == 1:
        return seq([a])
    step = vn.div(vn.sub(b, a), num(n - 1))
    return seq([vn.add(a, vn.mul(num(k), step)) for k in range(n)])


@split
def argsort(t):
    if shape(t) == (1,):
        return seq([ZERO])
    n = len(t.args)
    r = [vn.fnterm("argsort", *t.args, num(k)) for k in range(n)]
    for x in r:
        if x.op == "fn":
            vn.BOUNDS[x] = (0, n - 1)
    return seq(r)
