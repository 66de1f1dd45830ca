"""Value numbers for the value-flow analysis.

A Term is a hash-consed *value number*: two program expressions receive the same Term exactly
when the normal form proves them equal.  Conditional values are reduced ordered decision
diagrams over atomic conditions (gated values; hoisted to the top of every scalar operator and
pushed into the elements of arrays), numbers are Laurent polynomials over atoms with exact
rational coefficients, arrays are literal sequences (`seq`) of scalar terms.
"""
from __future__ import annotations

import math
from fractions import Fraction
from math import gcd
import itertools
import sys

sys.setrecursionlimit(100000)


class Term:
    __slots__ = ("op", "args", "id", "fv", "taint")

    def __repr__(self):
        return show(self)


_TABLE = {}
_COUNT = itertools.count()
_EMPTY = frozenset()


def _walk_args(args):
    for a in args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            yield from _walk_args(a)


def T(op, *args):
    key = (op, args)
    t = _TABLE.get(key)
    if t is not None:
        return t
    t = Term()
    t.op = op
    t.args = args
    t.id = next(_COUNT)
    fv = _EMPTY
    taint = op == "opq"
    for c in _walk_args(args):
        if c.fv:
            fv = fv | c.fv
        taint = taint or c.taint
    if op == "sym":
        fv = frozenset((t,))
    t.fv = fv
    t.taint = taint
    _TABLE[key] = t
    return t


# ---------------------------------------------------------------- leaves
TRUE = T("bool", True)
FALSE = T("bool", False)
NONE = T("none")
PI = T("sym", "pi")
INF = T("sym", "inf")


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x:
            return T("sym", "nan")
        if x in (float("inf"),):
            return INF
        if x == float("-inf"):
            return neg(INF)
        x = Fraction(repr(x))
    return T("num", Fraction(x))


ZERO = num(0)
ONE = num(1)
MINUS1 = num(-1)


def string(s):
    return T("str", s)

NONNULL = {PI, INF}
BOOL_SYMS = set()
INT_SYMS = set()
UNIT = set()   # atoms in the unit interval
BOUNDS = {}   # atom term -> (lo, hi) integer range facts
POSITIVE = set()  # atoms known to be > 0
STRSYMS = set()


def sym(name):
    t = T("sym", name)
    NONNULL.add(t)
    return t


def opq(reason, *args):
    return T("opq", reason, *[a for a in args if isinstance(a, Term)])

def is_num(t):
    return t.op == "num"


def cval(t):
    """python value of a constant integer term or None"""
    if t.op == "num":
        f = t.args[0]
        return int(f) if f.denominator == 1 else f
    if t.op == "bool":
        return int(t.args[0])
    return None


def cint(t):
    v = cval(t)
    return v if isinstance(v, int) else None


# ---------------------------------------------------------------- decision diagrams
def _key(atom):
    return atom.id


def top(t):
    return t.args[0] if t.op == "ite" else None


def min_atom(*ts):
    best = None
    for t in ts:
        if isinstance(t, Term) and t.op == "ite":
            a = t.args[0]
            if best is None or a.id < best.id:
                best = a
    return best


def cof(t, atom, val):
    """cofactor at the top atom only (diagrams are ordered)"""
    if isinstance(t, Term) and t.op == "ite" and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


_RESTRICT = {}


def restrict(t, atom, val):
    """replace atomic condition `atom` by val everywhere in the diagram part of t"""
    if t.op != "ite":
        return t
    key = (t, atom, val)
    r = _RESTRICT.get(key)
    if r is None:
        a, x, y = t.args
        if a is atom:
            r = restrict(x if val else y, atom, val)
        else:
            r = build(a, restrict(x, atom, val), restrict(y, atom, val))
        _RESTRICT[key] = r
    return r


def _restrict_pred(t, pred):
    memo = {}

    def go(t):
        if t.op != "ite":
            return t
        r = memo.get(t)
        if r is None:
            a, x, y = t.args
            v = pred(a)
            if v is True:
                r = go(x)
            elif v is False:
                r = go(y)
            else:
                r = build(a, go(x), go(y))
            memo[t] = r
        return r

    return go(t)


def _exclusive(a, b):
    """True if atoms a and b cannot both hold"""
    if a is b:
        return False
    if a.op == "lt0" and b.op == "lt0":
        d = add(a.args[0], b.args[0])
        if is_num(d) and d.args[0] >= 0:
            return True
    if a.op == "eq0" and b.op == "lt0" and (a.args[0] is b.args[0] or neg(a.args[0]) is b.args[0]):
        return True
    if b.op == "eq0" and a.op == "lt0":
        return _exclusive(b, a)
    if a.op == "eq0" and b.op == "eq0":
        d = sub(a.args[0], b.args[0])
        if is_num(d) and d.args[0] != 0:
            return True
        d = add(a.args[0], b.args[0])
        if is_num(d) and d.args[0] != 0:
            return True
    if a.op == "eq" and b.op == "eq":
        for i in (0, 1):
            for j in (0, 1):
                if a.args[i] is b.args[j]:
                    o1, o2 = a.args[1 - i], b.args[1 - j]
                    if o1.op == "str" and o2.op == "str" and o1 is not o2:
                        return True
    return False


def _implies(a, b):
    """True if a implies b (both atoms)"""
    if a is b:
        return True
    if a.op == "lt0" and b.op == "lt0":
        d = sub(b.args[0], a.args[0])
        return is_num(d) and d.args[0] <= 0
    return False


def _exhaustive(a, b):
    """True if not-a implies b"""
    if a.op == "lt0" and b.op == "lt0":
        d = add(a.args[0], b.args[0])
        return is_num(d) and d.args[0] < 0
    return False


_BUILD = {}


def same_shape(x, y):
    if x.op != "seq" or y.op != "seq":
        return False
    return len(x.args) == len(y.args)


def build(atom, x, y):
    if x is y:
        return x
    key = (atom, x, y)
    r = _BUILD.get(key)
    if r is not None:
        return r
    rel = atom.op in ("lt0", "eq0", "eq")
    if rel and x.op == "ite":
        x = _restrict_pred(x, lambda b: False if _exclusive(atom, b) else (True if _implies(atom, b) else None))
    if rel and y.op == "ite":
        y = _restrict_pred(y, lambda b: False if _implies(b, atom) else (True if _exhaustive(atom, b) else None))
    if x is y:
        r = x
    elif x.op == "seq" and y.op == "seq" and len(x.args) == len(y.args):
        r = T("seq", *[ite(globals()["atom"](atom), p, q) for p, q in zip(x.args, y.args)])
    else:
        r = T("ite", atom, x, y)
    _BUILD[key] = r
    return r


_ITE = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op != "ite":
        c = truth(c)
        if c.op != "ite":
            return ite(c, a, b)
    key = (c, a, b)
    r = _ITE.get(key)
    if r is not None:
        return r
    v = min_atom(c, a, b)
    r = build(v, ite(cof(c, v, True), cof(a, v, True), cof(b, v, True)),
              ite(cof(c, v, False), cof(a, v, False), cof(b, v, False)))
    _ITE[key] = r
    return r


def atom(a):
    return T("ite", a, TRUE, FALSE)


def bnot(c):
    return ite(c, FALSE, TRUE)


def band(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, truth(c), FALSE)
    return r


def bor(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, truth(c))
    return r


def is_bool(t):
    if t.op == "bool":
        return True
    if t.op == "ite":
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return False


def truth(t):
    if t.op == "bool":
        return t
    if t.op == "ite":
        a, x, y = t.args
        tx, ty = truth(x), truth(y)
        if tx is x and ty is y:
            return t
        return ite(atom(a), tx, ty)
    if t.op == "num":
        return TRUE if t.args[0] != 0 else FALSE
    if t.op == "none":
        return FALSE
    if t.op == "str":
        return TRUE if t.args[0] else FALSE
    if t in BOOL_SYMS:
        return atom(T("truth", t))
    if t.op == "poly":
        return bnot(eq(t, ZERO))
    if t.op == "seq":
        if len(t.args) == 1:
            return truth(t.args[0])
        return opq_bool("truth value of an array", t)
    if t.op == "opq":
        return atom(T("truth", t))
    if t.op == "fn" and t.args[0] in BOOL_FNS:
        return atom(T("truth", t))
    return bnot(eq(t, ZERO))


BOOL_FNS = set()


def opq_bool(reason, *a):
    return atom(T("truth", opq(reason, *a)))


def leaves(t, path=TRUE):
    """yield (path condition as list of (atom,bool)), leaf)"""
    stack = [(t, ())]
    while stack:
        t, p = stack.pop()
        if t.op == "ite":
            a, x, y = t.args
            stack.append((y, p + ((a, False),)))
            stack.append((x, p + ((a, True),)))
        else:
            yield p, t


def lift(fn):
    """strict operator: hoist decision diagrams out of Term arguments (top-level or in tuples)"""
    memo = {}

    def g(*args):
        if any(isinstance(a, Term) and a.op == "ite" for a in args):
            key = args
            try:
                r = memo.get(key)
            except TypeError:
                r, key = None, None
            if r is None:
                v = min_atom(*args)
                r = build_ordered(v, g(*[cof(a, v, True) for a in args]), g(*[cof(a, v, False) for a in args]))
                if key is not None:
                    memo[key] = r
            return r
        return fn(*args)

    g.__name__ = fn.__name__
    g.raw = fn
    return g


def build_ordered(v, x, y):
    """build but x,y may contain atoms smaller than v"""
    return ite(atom(v), x, y)



# ---------------------------------------------------------------- polynomials
def _poly_of(t):
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "bool":
        return {(): Fraction(1)} if t.args[0] else {}
    if t.op == "poly":
        return {m: c for c, m in t.args[0]}
    return {((t, Fraction(1)),): Fraction(1)}


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def _reducible(m):
    for a, e in m:
        if a.op == "fn" and (e != 1 and a.args[0] in ("sqrt", "sin") and (e.denominator == 1) and (a.args[0] == "sqrt" or e > 1)
                             or a.args[0] == "abs" and e.denominator == 1 and e % 2 == 0):
            return True
    return False


def _reduce(p):
    """sqrt(a)^2 -> a, abs(a)^2 -> a^2, sin^2 -> 1 - cos^2"""
    out = ZERO
    for m, c in p.items():
        if not _reducible(m):
            out = add(out, _of_poly({m: c}))
            continue
        t = num(c)
        for a, e in m:
            if a.op == "fn" and e.denominator == 1:
                k = int(e)
                if a.args[0] == "sqrt" and k != 1:
                    q, r = divmod(k, 2)
                    f = power(a.args[1], num(q))
                    if r:
                        f = mul(f, a)
                elif a.args[0] == "abs" and k % 2 == 0:
                    f = power(a.args[1], num(k))
                elif a.args[0] == "sin" and k > 1:
                    q, r = divmod(k, 2)
                    f = power(sub(ONE, power(fn1("cos", a.args[1]), num(2))), num(q))
                    if r:
                        f = mul(f, a)
                else:
                    f = _of_poly({((a, e),): Fraction(1)})
            else:
                f = _of_poly({((a, e),): Fraction(1)})
            t = mul(t, f)
        out = add(out, t)
    return out


def _of_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if any(_reducible(m) for m in p):
        return _reduce(p)
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple((c, m) for m, c in sorted(p.items(), key=lambda kv: _mono_key(kv[0])))
    return T("poly", items)


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: ae[0].id))


def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return _cancel_inv(r)


def _cancel_inv(r):
    """cancel multi-term polynomial atoms with negative exponent against the rest"""
    r = {m: c for m, c in r.items() if c != 0}
    inv_atoms = {a for m in r for a, e in m if a.op == "poly"}
    for a in inv_atoms:
        es = {}
        for m, c in r.items():
            e = dict(m).get(a, Fraction(0))
            es.setdefault(e, {})[tuple(x for x in m if x[0] is not a)] = c
        out = {}
        changed = False
        for e, sub in es.items():
            while e < 0:
                q = _exact_div(sub, _poly_of(a))
                if q is None:
                    break
                sub, e = q, e + 1
                changed = True
            if e > 0 and e.denominator == 1:
                for _ in range(int(e)):
                    sub = _pmul_raw(sub, _poly_of(a))
                e = Fraction(0)
                changed = True
            for m, c in sub.items():
                m2 = _mono_mul(m, ((a, e),)) if e != 0 else m
                out[m2] = out.get(m2, 0) + c
        if changed:
            r = {m: c for m, c in out.items() if c != 0}
    return r


def _pmul_raw(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c != 0}


def _exact_div(p, q):
    """exact division of polynomial dicts p/q (None if not exact)"""
    if not q:
        return None

    atoms = sorted({a for m in list(p) + list(q) for a, _ in m}, key=lambda a: a.id)

    def key(m):  # lexicographic exponent vector: a monomial order
        d = dict(m)
        return tuple(d.get(a, Fraction(0)) for a in atoms)

    ql = max(q, key=key)
    qc = q[ql]
    inv = tuple((a, -e) for a, e in ql)
    rem = dict(p)
    out = {}
    for _ in range(len(p) * 4 + 8):
        if not rem:
            return out
        m = max(rem, key=key)
        f = _mono_mul(m, inv)
        if any(e < 0 and not any(a is x for x, _ in m) for a, e in f):
            return None
        c = rem[m] / qc
        out[f] = out.get(f, 0) + c
        for qm, cc in q.items():
            mm_ = _mono_mul(f, qm)
            v = rem.get(mm_, 0) - c * cc
            if v == 0:
                rem.pop(mm_, None)
            else:
                rem[mm_] = v
    return None

@lift
def add(a, b):
    p = dict(_poly_of(a))
    for m, c in _poly_of(b).items():
        p[m] = p.get(m, 0) + c
    return _of_poly(_cancel_inv(p) if any(x.op == "poly" for m in p for x, _ in m) else p)


@lift
def mul(a, b):
    if a is ZERO or b is ZERO or a is FALSE or b is FALSE:
        return ZERO
    p, q = _poly_of(a), _poly_of(b)
    if len(p) > 1 and len(q) > 1 and len(p) * len(q) > MAXPROD:
        if len(p) > len(q):
            p, q = q, p
        # keep the larger factor as one opaque factor: exact value, no expansion
        q = {((box(_of_poly(q)), Fraction(1)),): Fraction(1)}
        if len(p) > 40:
            p = {((box(_of_poly(p)), Fraction(1)),): Fraction(1)}
    return _of_poly(_pmul(p, q))


MAXPROD = 120


def box(a):
    if a.op == "poly" and len(a.args[0]) > 1:
        return T("fn", "id", a)
    return a


def neg(a):
    return mul(MINUS1, a)


def sub(a, b):
    return add(a, neg(b))


@lift
def power(a, e):
    if e.op == "num":
        f = e.args[0]
        if f.denominator == 1:
            k = int(f)
            if k == 0:
                return ONE
            p = _poly_of(a)
            if k > 0:
                if k <= 6 and (len(p) <= 4 or k <= 2 and len(p) ** 2 <= MAXPROD):
                    r = {(): Fraction(1)}
                    for _ in range(k):
                        r = _pmul(r, p)
                    return _of_poly(r)
                return T("fn", "pow", a, e)
            if len(p) == 0:
                return opq("division by zero")
            if len(p) == 1:
                (m, c), = p.items()
                return _of_poly({tuple((x, ex * k) for x, ex in m): c ** k})
            lead = min(p, key=_mono_key)
            lc = p[lead]
            monic = _of_poly({m: c / lc for m, c in p.items()})
            return _of_poly({((monic, Fraction(k)),): lc ** k})
        if f == Fraction(1, 2):
            return sqrt(a)
        if f == Fraction(-1, 2):
            return power(sqrt(a), MINUS1)
    return T("fn", "pow", a, e)


def div(a, b):
    return mul(a, power(b, MINUS1))


def _isqrt(fr):
    from math import isqrt
    n, d = fr.numerator, fr.denominator
    if n < 0:
        return None
    a, b = isqrt(n), isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


@lift
def sqrt(a):
    if a.op == "num":
        r = _isqrt(a.args[0])
        if r is not None:
            return num(r)
    p = _poly_of(a)
    if p:
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 2:
                return fn1("abs", m[0][0])
        nums = [abs(c.numerator) for c in p.values()]
        dens = [c.denominator for c in p.values()]
        g = 0
        for x in nums:
            g = gcd(g, x)
        l = 1
        for x in dens:
            l = l * x // gcd(l, x)
        content = Fraction(g, l)
        # largest square divisor
        def sq(n):
            r, k = 1, 2
            while k * k <= n and k < 10000:
                while n % (k * k) == 0:
                    n //= k * k
                    r *= k
                k += 1
            return r
        if 0 < content.numerator < 10 ** 14 and content.denominator < 10 ** 14:
            s = Fraction(sq(content.numerator), 1)
            # denominators: multiply to make square
            d = content.denominator
            sd = sq(d)
            s = s / sd
            if s != 1:
                return mul(num(s), T("fn", "sqrt", _of_poly({m: c / (s * s) for m, c in p.items()})))
    return T("fn", "sqrt", a)


@lift
def fn1(name, a):
    if name in ("cos", "abs"):
        p = _poly_of(a)
        if p:
            lead = min(p, key=_mono_key)
            if p[lead] < 0:
                return fn1(name, neg(a))
        if name == "cos" and a is ZERO:
            return ONE
        if name == "abs" and a.op == "num":
            return num(abs(a.args[0]))
        if name == "abs" and len(p) == 1:
            (m, c), = p.items()
            if c != 1:
                return mul(num(abs(c)), fn1("abs", _of_poly({m: Fraction(1)})))
    if name in ("sin", "tan", "sign"):
        if a is ZERO:
            return ZERO
        p = _poly_of(a)
        if p:
            lead = min(p, key=_mono_key)
            if p[lead] < 0:
                return neg(fn1(name, neg(a)))
    if name == "int":
        if is_integral(a):
            return a
        if a.op == "num":
            return num(int(a.args[0]))
        p = _poly_of(a)
        c = p.get((), Fraction(0))
        if len(p) > 1 and c.denominator == 1 and c > 0:
            rest = _of_poly({m: v for m, v in p.items() if m != ()})
            lo, _ = _range(rest)
            if _strictly_positive(rest) or (lo is not None and lo >= 0):
                return add(T("fn", "int", rest), num(c))
    if name in ("floor", "ceil", "round") and is_integral(a):
        return a
    if a.op == "num":
        x = a.args[0]
        if name in ("floor", "ceil", "round"):
            return num({"floor": math.floor, "ceil": math.ceil, "round": round}[name](x))
        if name == "sign":
            return num((x > 0) - (x < 0))
        if x == 0 and name in ("exp", "cosh"):
            return ONE
        if x == 0 and name in ("arcsin", "arctan", "tanh", "sinh"):
            return ZERO
        if x == 1 and name in ("log", "arccos"):
            return ZERO
    return T("fn", name, a)

def is_integral(t):
    if t.op == "num":
        return t.args[0].denominator == 1
    if t.op == "bool":
        return True
    if t.op == "poly":
        return all(c.denominator == 1 and all(is_integral(a) and e.denominator == 1 and e > 0 for a, e in m) for c, m in t.args[0])
    if t.op == "fn" and t.args[0] in ("int", "floor", "ceil", "round", "argmin", "argmax", "argsort"):
        return True
    if t.op == "ite":
        return is_integral(t.args[1]) and is_integral(t.args[2])
    if t.op == "sym":
        return t.args[0] in INT_SYMS
    if t.op == "fn" and t.args[0] in ("min", "max"):
        return all(is_integral(a) for a in t.args[1:])
    return False


# ---------------------------------------------------------------- comparisons
def _range(t):
    """(lo, hi) bounds of a term from declared facts, None where unknown"""
    if t.op == "num":
        return t.args[0], t.args[0]
    if t in BOUNDS:
        return BOUNDS[t]
    if t in UNIT:
        return 0, 1
    if t in POSITIVE:
        return 0, None
    if t.op == "fn" and t.args[0] in ("sqrt", "abs"):
        return 0, None
    if t.op == "poly":
        lo = hi = Fraction(0)
        for c, m in t.args[0]:
            if m == ():
                l = h = Fraction(1)
            elif len(m) == 1 and m[0][1] == 1:
                l, h = _range(m[0][0])
            elif all(a in POSITIVE or e % 2 == 0 for a, e in m):
                l, h = 0, None
            else:
                return None, None
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi
    return None, None


def _strictly_positive(t):
    if t in POSITIVE:
        return True
    if t.op == "num":
        return t.args[0] > 0
    if t.op == "fn" and t.args[0] in ("sqrt",):
        return _strictly_positive(t.args[1])
    if t.op == "fn" and t.args[0] == "exp":
        return True
    if t.op == "poly":
        ok = False
        for c, m in t.args[0]:
            if c < 0:
                return False
            if m == () or all(a in POSITIVE for a, e in m):
                ok = True
            elif not all(a in POSITIVE or (e.denominator == 1 and e % 2 == 0) for a, e in m):
                return False
        return ok
    return False


@lift
def lt(a, b):
    d = sub(a, b)
    if d.op == "ite":
        return lt(d, ZERO)
    if d.op == "num":
        return TRUE if d.args[0] < 0 else FALSE
    if d is INF:
        return FALSE
    if a.op in NONNUM or b.op in NONNUM:
        return atom(T("truth", T("fn", "lt", a, b)))
    p = _poly_of(d)
    for m, c in p.items():
        if m == ((INF, Fraction(1)),):
            return TRUE if c < 0 else FALSE
    lead = min((m for m in p if m != ()), key=_mono_key)
    c = abs(p[lead])
    if c != 1:
        d = _of_poly({m: x / c for m, x in p.items()})
    lo, hi = _range(d)
    if lo is not None and lo >= 0:
        return FALSE
    if hi is not None and hi < 0:
        return TRUE
    if _strictly_positive(d):
        return FALSE
    if _strictly_positive(neg(d)):
        return TRUE
    return atom(T("lt0", d))


def le(a, b):
    return bnot(lt(b, a))


NONNUM = {"str", "none", "seq", "obj", "tup"}


@lift
def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "none":
        return isnone(b)
    if b.op == "none":
        return isnone(a)
    if a.op == "str" and b.op == "str":
        return FALSE
    if (a.op == "str") != (b.op == "str") and (is_num(a) or is_num(b) or a.op == "bool" or b.op == "bool"):
        return FALSE
    if a.op in NONNUM or b.op in NONNUM or a in STRSYMS or b in STRSYMS:
        x, y = sorted((a, b), key=lambda t: t.id)
        return atom(T("eq", x, y))
    d = sub(a, b)
    if d.op == "ite":
        return eq(d, ZERO)
    if d.op == "num":
        return TRUE if d.args[0] == 0 else FALSE
    p = _poly_of(d)
    for m, c in p.items():
        if m == ((INF, Fraction(1)),):
            return FALSE
    lead = min((m for m in p if m != ()), key=_mono_key)
    c = p[lead]
    if c != 1:
        d = _of_poly({m: x / c for m, x in p.items()})
    if d in BOOL_SYMS or (d.op == "fn" and d.args[0] in BOOL_FNS):
        return bnot(truth(d))
    lo, hi = _range(d)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0) or _strictly_positive(d) or _strictly_positive(neg(d)):
        return FALSE
    return atom(T("eq0", d))


@lift
def isnone(t):
    if t.op == "none":
        return TRUE
    if t.op == "opq":
        return atom(T("isnone", t))
    return FALSE


@lift
def fnterm(name, *args):
    if name in ("argmin", "argmax") and args and all(is_num(a) for a in args):
        xs = [a.args[0] for a in args]
        return num(xs.index(min(xs) if name == "argmin" else max(xs)))
    if name == "argsort" and args and all(is_num(a) for a in args):
        k = int(args[-1].args[0])
        xs = [a.args[0] for a in args[:-1]]
        return num(sorted(range(len(xs)), key=lambda i: xs[i])[k])
    if name == "mod" and all(is_num(a) for a in args) and args[1].args[0] != 0:
        return num(args[0].args[0] % args[1].args[0])
    if name == "roundn" and all(is_num(a) for a in args):
        return num(round(args[0].args[0], int(args[1].args[0])))
    return T("fn", name, *args)


def minmax(kind, ts):
    return _minmax(kind, *ts)


@lift
def _minmax(kind, *ts):
    flat = []
    for t in ts:
        if t.op == "fn" and t.args[0] == kind:
            flat.extend(t.args[1:])
        else:
            flat.append(t)
    inf = INF if kind == "min" else neg(INF)
    flat = [t for t in flat if t is not inf] or [inf]
    nums = [t.args[0] for t in flat if is_num(t)]
    rest = sorted({t for t in flat if not is_num(t)}, key=lambda t: t.id)
    if nums:
        c = num(min(nums) if kind == "min" else max(nums))
        if not rest:
            return c
        rest = sorted(rest + [c], key=lambda t: t.id)
    # absorption: min(a, max(a, b)) = a
    other = "max" if kind == "min" else "min"
    s = set(rest)
    rest = [t for t in rest if not (t.op == "fn" and t.args[0] == other and any(x in s for x in t.args[1:]))]
    if len(rest) == 1:
        return rest[0]
    return T("fn", kind, *rest)


def clip(x, lo, hi):
    """min(max(x, lo), hi) with None for a missing bound"""
    if lo is not NONE:
        x = minmax("max", [x, lo])
    if hi is not NONE:
        x = minmax("min", [x, hi])
    return x


def seq(its):
    return T("seq", *its)


# ---------------------------------------------------------------- substitution
BOOL_ATOMS = {"lt0", "eq0", "eq", "isnone", "truth", "raises"}


def rebuild(op, args):
    if op == "poly":
        r = ZERO
        for c, m in args[0]:
            t = num(c)
            for a, e in m:
                t = mul(t, power(a, num(e)))
            r = add(r, t)
        return r
    if op == "fn":
        name = args[0]
        if name == "sqrt":
            return sqrt(args[1])
        if name in ("min", "max"):
            return minmax(name, args[1:])
        if name == "pow":
            return power(args[1], args[2])
        if len(args) == 2 and name in UNARY:
            return fn1(name, args[1])
        if name in FN_SPECIAL:
            return FN_SPECIAL[name](*args[1:])
        return fnterm(*args)
    if op == "lt0":
        return lt(args[0], ZERO)
    if op == "eq0":
        return eq(args[0], ZERO)
    if op == "eq":
        return eq(*args)
    if op == "isnone":
        return isnone(args[0])
    if op == "truth":
        return truth(args[0])
    if op == "raises":
        return atom(T("raises", *args))
    if op in SPECIAL:
        return SPECIAL[op](*args)
    return T(op, *args)


SPECIAL = {}
FN_SPECIAL = {"id": lambda a: box(a) if a.op != "ite" else T("fn", "id", a)}
UNARY = {"cos", "sin", "tan", "arccos", "arcsin", "arctan", "exp", "log", "abs", "sign", "floor", "ceil", "round", "int",
         "tanh", "sinh", "cosh"}


def subst(t, m):
    if not m:
        return t
    keys = frozenset(k for k in m)
    memo = {}

    def go(t):
        if t in m:
            return m[t]
        if not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is None:
            if t.op == "ite":
                a, x, y = t.args
                r = ite(goatom(a), go(x), go(y))
            elif t.op in BOOL_ATOMS:
                r = goatom(t)
            else:
                r = rebuild(t.op, tuple(goarg(a) for a in t.args))
            memo[t] = r
        return r

    def goatom(a):
        if not (a.fv & keys):
            return atom(a)
        r = rebuild(a.op, tuple(goarg(x) for x in a.args))
        return r if r.op in ("ite", "bool") else truth(r)

    def goarg(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goarg(x) for x in a)
        return a

    return go(t)


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(_walk_args(x.args))


# ---------------------------------------------------------------- differentiation
_DIFF = {}


def diff(t, x):
    """derivative of scalar term t with respect to symbol x (almost everywhere)"""
    if x not in t.fv:
        return ZERO
    if t is x:
        return ONE
    key = (t, x)
    r = _DIFF.get(key)
    if r is not None:
        return r
    if t.op == "ite":
        a, u, v = t.args
        r = ite(atom(a), diff(u, x), diff(v, x))
    elif t.op == "poly":
        r = ZERO
        for c, m in t.args[0]:
            for j, (a, e) in enumerate(m):
                da = diff(a, x)
                if da is ZERO:
                    continue
                term = mul(num(c * e), mul(power(a, num(e - 1)), da))
                for k, (b, f) in enumerate(m):
                    if k != j:
                        term = mul(term, power(b, num(f)))
                r = add(r, term)
    elif t.op == "fn":
        name, args = t.args[0], t.args[1:]
        if name == "sqrt":
            r = mul(diff(args[0], x), power(mul(num(2), t), MINUS1))
        elif name == "id":
            r = diff(args[0], x)
        elif name == "pow" and args[1].op == "num":
            e = args[1].args[0]
            r = mul(mul(args[1], power(args[0], num(e - 1))), diff(args[0], x))
        elif name == "sin":
            r = mul(fn1("cos", args[0]), diff(args[0], x))
        elif name == "cos":
            r = neg(mul(fn1("sin", args[0]), diff(args[0], x)))
        elif name == "exp":
            r = mul(t, diff(args[0], x))
        elif name == "log":
            r = mul(power(args[0], MINUS1), diff(args[0], x))
        elif name == "abs":
            r = mul(fn1("sign", args[0]), diff(args[0], x))
        elif name in ("arccos", "arcsin"):
            r = mul(power(sqrt(sub(num(1), mul(args[0], args[0]))), MINUS1), diff(args[0], x))
            r = neg(r) if name == "arccos" else r
        elif name == "arctan":
            r = mul(power(add(num(1), mul(args[0], args[0])), MINUS1), diff(args[0], x))
        elif name == "tan":
            r = mul(power(fn1("cos", args[0]), num(-2)), diff(args[0], x))
        elif name == "tanh":
            r = mul(sub(num(1), mul(t, t)), diff(args[0], x))
        elif name in ("sinh", "cosh"):
            r = mul(fn1("cosh" if name == "sinh" else "sinh", args[0]), diff(args[0], x))
        elif name in ("floor", "ceil", "round", "int", "sign", "argsort", "argmin", "argmax"):
            r = ZERO
        elif name in ("min", "max"):
            r = ZERO
            for k, a in enumerate(args):
                da = diff(a, x)
                if da is not ZERO:
                    sel = T("fn", "sel" + name, a, *args)
                    r = add(r, mul(sel, da))
        else:
            r = ZERO
            for k, a in enumerate(args):
                if not isinstance(a, Term):
                    continue
                if a.op in ("seq", "tup", "obj", "str"):
                    if x in a.fv:
                        r = opq("derivative through structured argument of " + name)
                        break
                    continue
                da = diff(a, x)
                if da is not ZERO:
                    r = add(r, mul(fnterm(f"d{k}:{name}", *args), da))
    else:
        r = opq("derivative of " + t.op, t)
    _DIFF[key] = r
    return r


# ---------------------------------------------------------------- printing
def show(t, depth=8):
    if not isinstance(t, Term):
        return str(t)
    if depth == 0:
        return "…"
    op, a = t.op, t.args
    s = lambda x: show(x, depth - 1)
    if op == "num":
        return str(a[0])
    if op == "bool":
        return str(a[0])
    if op == "none":
        return "None"
    if op == "str":
        return repr(a[0])
    if op == "sym":
        return a[0]
    if op == "bv":
        return f"b{a[0]}.{a[1]}"
    if op == "poly":
        parts = []
        for c, m in a[0]:
            f = [s(x) + (f"^{e}" if e != 1 else "") for x, e in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            parts.append("*".join(f))
        return "(" + " + ".join(parts) + ")"
    if op == "ite":
        return f"[{s(a[0])} ? {s(a[1])} : {s(a[2])}]"
    if op == "lt0":
        return f"{s(a[0])}<0"
    if op == "eq0":
        return f"{s(a[0])}==0"
    if op == "seq":
        return "<" + ", ".join(s(x) for x in a) + ">"
    if op == "item":
        return s(a[0])
    if op == "splat":
        return "*" + s(a[0])
    if op == "each":
        return f"each({s(a[0])}, {s(a[1])})"
    if op == "abs":
        return f"λ{a[0]}.{s(a[2])}"
    if op == "at":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "fn":
        return f"{a[0]}(" + ", ".join(s(x) for x in a[1:]) + ")"
    if op == "mm":
        return "(" + " @ ".join(s(x) for x in a) + ")"
    if op == "attr":
        return f"{s(a[0])}.{a[1]}"
    if op == "hook":
        return f"{s(a[0])}.{a[1]}(" + ", ".join(s(x) for x in a[2:]) + ")"
    if op == "symobj":
        return f"{s(a[1])}"
    return f"{op}(" + ", ".join(s(x) if isinstance(x, Term) else str(x) for x in a) + ")"