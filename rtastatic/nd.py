"""Rank-generic array rearrangements and contractions on nested seq terms of known shape."""
from __future__ import annotations

from itertools import product

from . import vn, arr
from .vn import ZERO, ONE, FALSE, TRUE, num, seq, ite, band, bor, bnot, truth
from .arr import Unsupported, ShapeError, shape, flat, unflat, split


def size(shp):
    n = 1
    for d in shp:
        n *= d
    return n


def build(shp, f):
    """array of shape shp whose element at index tuple i is f(i)"""
    shp = tuple(shp)
    if not shp:
        return f(())
    return unflat([f(i) for i in product(*[range(d) for d in shp])], shp)


def at(t, i):
    for k in i:
        t = t.args[k]
    return t


def norm_axis(ax, r):
    if not -r <= ax < r:
        raise ShapeError("axis out of range")
    return ax % r


def lift(f):
    """apply f(term, *rest) with conditional shapes split away"""
    def g(t, *rest):
        return split(lambda x: f(x, *rest))(t)
    return g


@lift
def moveaxes(t, perm):
    s = shape(t)
    perm = [norm_axis(a, len(s)) for a in perm]
    if sorted(perm) != list(range(len(s))):
        raise ShapeError("axes")
    return build([s[a] for a in perm], lambda i: at(t, [i[perm.index(k)] for k in range(len(s))]))


def swapaxes(t, a, b):
    def f(x):
        r = len(shape(x))
        p = list(range(r))
        i, j = norm_axis(a, r), norm_axis(b, r)
        p[i], p[j] = p[j], p[i]
        return moveaxes(x, p)
    return split(f)(t)


def moveaxis(t, a, b):
    def f(x):
        r = len(shape(x))
        i, j = norm_axis(a, r), norm_axis(b, r)
        p = [k for k in range(r) if k != i]
        p.insert(j, i)
        return moveaxes(x, p)
    return split(f)(t)


def transpose(t, perm=None):
    return split(lambda x: moveaxes(x, perm if perm is not None else list(range(len(shape(x))))[::-1]) if len(shape(x)) > 1 else x)(t)


def pad(t, width, mode, const):
    def f(x):
        s = shape(x)
        w = width
        if isinstance(w, int):
            w = [(w, w)] * len(s)
        elif w and isinstance(w[0], int):
            w = [tuple(w) if len(w) == 2 else (w[0], w[0])] * len(s)
        elif len(w) == 1:
            w = [tuple(w[0])] * len(s)
        if len(w) != len(s):
            raise ShapeError("pad width")

        def g(i):
            j = [k - a for k, (a, _) in zip(i, w)]
            if all(0 <= k < d for k, d in zip(j, s)):
                return at(x, j)
            if mode == "constant":
                return const
            if mode == "edge":
                return at(x, [min(max(k, 0), d - 1) for k, d in zip(j, s)])
            if mode == "wrap":
                return at(x, [k % d for k, d in zip(j, s)])
            raise Unsupported("pad mode")
        return build([a + d + b for d, (a, b) in zip(s, w)], g)
    return split(f)(t)


def roll(t, k, ax):
    def f(x):
        s = shape(x)
        if ax is None:
            fl = flat(x)
            n = len(fl)
            return unflat([fl[(i - k) % n] for i in range(n)], s) if n else x
        a = norm_axis(ax, len(s))
        return build(s, lambda i: at(x, [(v - k) % s[a] if j == a else v for j, v in enumerate(i)]))
    return split(f)(t)


def flip(t, axes):
    def f(x):
        s = shape(x)
        ax = range(len(s)) if axes is None else [norm_axis(a, len(s)) for a in axes]
        return build(s, lambda i: at(x, [s[j] - 1 - v if j in ax else v for j, v in enumerate(i)]))
    return split(f)(t)


def tile(t, reps):
    def f(x):
        s = shape(x)
        r = list(reps)
        n = max(len(s), len(r))
        s2 = (1,) * (n - len(s)) + tuple(s)
        r = [1] * (n - len(r)) + r
        y = unflat(flat(x), s2)
        return build([a * b for a, b in zip(s2, r)], lambda i: at(y, [k % d for k, d in zip(i, s2)]))
    return split(f)(t)


def repeat(t, k, ax):
    def f(x):
        s = shape(x)
        if ax is None:
            return seq([v for v in flat(x) for _ in range(k)])
        a = norm_axis(ax, len(s))
        return build([d * k if j == a else d for j, d in enumerate(s)], lambda i: at(x, [v // k if j == a else v for j, v in enumerate(i)]))
    return split(f)(t)


def expand(t, ax):
    def f(x):
        s = list(shape(x))
        r = len(s) + 1
        s.insert(norm_axis(ax, r), 1)
        return unflat(flat(x), tuple(s))
    return split(f)(t)


def squeeze(t, ax=None):
    def f(x):
        s = shape(x)
        if ax is None:
            s2 = tuple(d for d in s if d != 1)
        else:
            a = norm_axis(ax, len(s))
            if s[a] != 1:
                raise ShapeError("squeeze")
            s2 = s[:a] + s[a + 1:]
        return unflat(flat(x), s2)
    return split(f)(t)


def stack(ts, ax):
    def f(*xs):
        ss = {shape(x) for x in xs}
        if len(ss) > 1:
            raise ShapeError("stack")
        s = ss.pop()
        a = norm_axis(ax, len(s) + 1)
        if a == 0:
            return seq(list(xs))
        return build(s[:a] + (len(xs),) + s[a:], lambda i: at(xs[i[a]], i[:a] + i[a + 1:]))
    return split(f)(*ts)


def take_along(t, idx, ax):
    s = shape(t)
    a = norm_axis(ax, len(s))
    return build([len(idx) if j == a else d for j, d in enumerate(s)], lambda i: at(t, [idx[v] if j == a else v for j, v in enumerate(i)]))


def pieces(t, parts, ax, even):
    """parts: number of pieces or list of cut points"""
    s = shape(t)
    n = s[norm_axis(ax, len(s))]
    if isinstance(parts, int):
        if even and n % parts:
            raise ShapeError("array split does not result in an equal division")
        sz = [n // parts + (1 if k < n % parts else 0) for k in range(parts)]
        cuts = [0]
        for k in sz:
            cuts.append(cuts[-1] + k)
    else:
        cuts = [0] + [c if c >= 0 else c + n for c in parts] + [n]
    return [take_along(t, list(range(a, min(b, n))), ax) for a, b in zip(cuts, cuts[1:])]


def tri(t, k, upper):
    def f(x):
        s = shape(x)
        return build(s, lambda i: at(x, i) if (i[-1] - i[-2] >= k if upper else i[-1] - i[-2] <= k) else ZERO)
    return split(f)(t)


def diag(t, k=0):
    def f(x):
        s = shape(x)
        if len(s) == 1:
            n = s[0] + abs(k)
            return build((n, n), lambda i: x.args[i[0] + min(k, 0)] if i[1] - i[0] == k and 0 <= i[0] + min(k, 0) < s[0] else ZERO)
        out = [x.args[i].args[i + k] for i in range(s[0]) if 0 <= i + k < s[1]]
        return seq(out)
    return split(f)(t)


def kron(a, b):
    def f(x, y):
        sx, sy = shape(x), shape(y)
        n = max(len(sx), len(sy))
        sx, sy = (1,) * (n - len(sx)) + sx, (1,) * (n - len(sy)) + sy
        x, y = unflat(flat(x), sx), unflat(flat(y), sy)
        return build([p * q for p, q in zip(sx, sy)], lambda i: vn.mul(at(x, [k // q for k, q in zip(i, sy)]), at(y, [k % q for k, q in zip(i, sy)])))
    return split(f)(a, b)


def no_ellipsis(spec, xs):
    """the same specification with letters in place of the ellipsis"""
    ins, arrow, out = spec.partition("->")
    ins = ins.split(",")
    free = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in spec]
    more = [len(shape(x)) - len(lab.replace("...", "")) for lab, x in zip(ins, xs) if "..." in lab]
    if any(k < 0 for k in more):
        raise ShapeError("einsum operand rank")
    n = max(more, default=0)
    dims = {}
    for lab, x in zip(ins, xs):
        if "..." in lab:
            i, k = lab.index("."), len(shape(x)) - len(lab.replace("...", ""))
            for c, d in zip(free[n - k:n], shape(x)[i:i + k]):
                if dims.setdefault(c, d) != d:
                    raise Unsupported("einsum broadcasting")
    dots = lambda k: "".join(free[n - k:n])
    ins = [lab.replace("...", dots(len(shape(x)) - len(lab.replace("...", "")))) for lab, x in zip(ins, xs)]
    if not arrow:
        letters = "".join(ins)
        out = "..." + "".join(sorted(c for c in set(letters) - set(dots(n)) if letters.count(c) == 1))
    return ",".join(ins) + "->" + out.replace("...", dots(n))


def einsum(spec, ts):
    spec = spec.replace(" ", "")
    if "..." in spec:
        if len(spec.partition("->")[0].split(",")) != len(ts):
            raise ShapeError("einsum operands")
        return split(lambda *xs: einsum(no_ellipsis(spec, xs), xs))(*ts)
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        letters = "".join(ins)
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))

    def f(*xs):
        dim = {}
        for lab, x in zip(ins, xs):
            s = shape(x)
            if len(s) != len(lab):
                raise ShapeError("einsum operand rank")
            for c, d in zip(lab, s):
                if dim.setdefault(c, d) != d:
                    raise ShapeError("einsum dimension mismatch")
        summed = [c for c in dim if c not in out]

        def g(i):
            env = dict(zip(out, i))
            r = ZERO
            for j in product(*[range(dim[c]) for c in summed]):
                env.update(zip(summed, j))
                m = ONE
                for lab, x in zip(ins, xs):
                    m = vn.mul(m, at(x, [env[c] for c in lab]))
                r = vn.add(r, m)
            return r
        return build([dim[c] for c in out], g)
    if len(ins) != len(ts):
        raise ShapeError("einsum operands")
    return split(f)(*ts)


def tensordot(a, b, axes):
    def f(x, y):
        rx, ry = len(shape(x)), len(shape(y))
        if isinstance(axes, int):
            ax, ay = list(range(rx - axes, rx)), list(range(axes))
        else:
            ax = [norm_axis(k, rx) for k in axes[0]]
            ay = [norm_axis(k, ry) for k in axes[1]]
        lx = [chr(97 + k) for k in range(rx)]
        ly = [chr(110 + k) for k in range(ry)]
        for p, q in zip(ax, ay):
            ly[q] = lx[p]
        out = [c for k, c in enumerate(lx) if k not in ax] + [c for k, c in enumerate(ly) if k not in ay]
        return einsum("".join(lx) + "," + "".join(ly) + "->" + "".join(out), [x, y])
    return split(f)(a, b)


def matmul_nd(a, b):
    sa, sb = shape(a), shape(b)
    if len(sa) > 2 and len(sb) <= 2:
        return seq([matmul_nd(x, b) for x in a.args])
    if len(sb) > 2 and len(sa) <= 2:
        return seq([matmul_nd(a, y) for y in b.args])
    if len(sa) > 2 and len(sb) > 2:
        if len(a.args) == 1 and len(b.args) != 1:
            return seq([matmul_nd(a.args[0], y) for y in b.args])
        if len(b.args) == 1 and len(a.args) != 1:
            return seq([matmul_nd(x, b.args[0]) for x in a.args])
        if len(a.args) != len(b.args):
            raise ShapeError("matmul batch")
        return seq([matmul_nd(x, y) for x, y in zip(a.args, b.args)])
    return arr.matmul(a, b)


def accumulate(t, op, ax):
    def f(x):
        s = shape(x)
        if ax is None:
            x, a, s = seq(flat(x)), 0, (len(flat(x)),)
        else:
            a = norm_axis(ax, len(s))

        def g(i):
            r = at(x, i[:a] + (0,) + i[a + 1:])
            for k in range(1, i[a] + 1):
                r = op(r, at(x, i[:a] + (k,) + i[a + 1:]))
            return r
        return build(s, g)
    return split(f)(t)


def diff(t, ax):
    def f(x):
        s = shape(x)
        a = norm_axis(ax, len(s))
        return build([d - 1 if j == a else d for j, d in enumerate(s)],
                     lambda i: vn.sub(at(x, i[:a] + (i[a] + 1,) + i[a + 1:]), at(x, i)))
    return split(f)(t)


def reduce(op, t, axes, keep):
    """axes: None or list"""
    def f(x):
        s = shape(x)
        if axes is None and not keep or x.op != "seq":
            return op(flat(x))
        ax = sorted({norm_axis(a, len(s)) for a in (range(len(s)) if axes is None else axes)})
        out = [1 if j in ax else d for j, d in enumerate(s)]

        def g(i):
            return op([at(x, [k[ax.index(j)] if j in ax else v for j, v in enumerate(i)]) for k in product(*[range(s[a]) for a in ax])])
        r = build(out, g)
        if keep:
            return r
        out2 = tuple(d for j, d in enumerate(s) if j not in ax)
        return unflat(flat(r), out2)
    return split(f)(t)


def det(rows):
    n = len(rows)
    if n == 1:
        return rows[0][0]
    r = ZERO
    for j in range(n):
        if rows[0][j] is ZERO:
            continue
        m = vn.mul(rows[0][j], det([[x for k, x in enumerate(row) if k != j] for row in rows[1:]]))
        r = vn.add(r, m) if j % 2 == 0 else vn.sub(r, m)
    return r


def block(v):
    """nested python lists of terms"""
    def depth(x):
        return 1 + depth(x[0]) if isinstance(x, list) else 0

    def go(x, ax):
        if not isinstance(x, list):
            return x if len(shape(x)) >= 2 or depth(v) < 2 else seq([x]) if x.op == "seq" else seq([seq([x])])
        return arr.concatenate([go(y, ax + 1) for y in x], -(depth(x)))
    if depth(v) == 1:
        return arr.hstack2(*v)
    return go(v, 0)
