"""Random interpretation of value numbers (Gulwani/Necula): two normal forms that differ are
compared under random interpretations of their symbols and uninterpreted functions.  A difference
is a witness that the two program expressions are not equal; the analysed program itself is never
run.  Exact rationals wherever possible; comparisons too close to call reject the sample."""
from __future__ import annotations

import hashlib
import math
import random
from fractions import Fraction

from . import vn
from .vn import Term

EPS = 1e-9


def qp_trivial(*a):
    from .ext import qp_trivial as q
    return q(*a)


class Reject(Exception):
    """sample outside the domain (division by zero, ambiguous comparison, assumption violated)"""


class Nan(Reject):
    """the value is not a number at this interpretation"""


class Undecided(Exception):
    """the value depends on a construct the analysis does not model"""


def h64(*parts):
    m = hashlib.blake2b(repr(parts).encode(), digest_size=8)
    return int.from_bytes(m.digest(), "big")


def norm(v):
    """hashable, float-noise free"""
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            return repr(v)
        return "%.8g" % (v + 0.0)
    if isinstance(v, Fraction):
        return "%.8g" % float(v)
    if isinstance(v, bool):
        return "%.8g" % float(v)
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    return v


SMALL = [Fraction(k) for k in (-2, -1, 0, 1, 2)]
POSV = [Fraction(1), Fraction(2), Fraction(1, 2), Fraction(3), Fraction(3, 2)]


def pick(h, mode, positive=False):
    if positive:
        return POSV[h % len(POSV)] if mode < 2 else Fraction(1 + h % 997, 100)
    if mode == 0:
        return SMALL[h % len(SMALL)]
    if mode == 1:
        return SMALL[h % len(SMALL)] if h % 3 else Fraction((h >> 8) % 4001 - 2000, 300)
    return Fraction((h >> 8) % 4001 - 2000, 300)


class Sample:
    def __init__(self, seed, fixed=None):
        self.seed = seed
        self.mode = seed % 3
        self.memo = {}
        self.fixed = fixed or {}
        self.forced = {}
        self.jit = None
        self.used = {}

    # ---------------------------------------------------------------- symbols
    def symval(self, t):
        name = t.args[0]
        if t in self.fixed:
            return self.fixed[t]
        if name == "pi":
            return math.pi
        if name == "inf":
            return math.inf
        if t in vn.STRSYMS:
            return "§" + name
        h = h64(self.seed, "sym", name)
        if name in self.forced:
            v = self.forced[name]
        elif t in vn.BOOL_SYMS:
            v = bool(h & 1)
        elif t in vn.BOUNDS:
            lo, hi = vn.BOUNDS[t]
            lo = 0 if lo is None else lo
            hi = lo + 6 if hi is None else hi
            v = Fraction(int(lo) + h % (int(hi) - int(lo) + 1))
        elif name in vn.INT_SYMS:
            v = Fraction(h % 6)
        else:
            v = pick(h, self.mode, t in vn.POSITIVE)
        self.used[name] = v
        return v

    # ---------------------------------------------------------------- evaluation
    def ev(self, t):
        if not isinstance(t, Term):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self._ev(t)
            self.memo[t] = (r,)
            return r
        return r[0]

    def num(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, (Fraction, float)):
            return v
        raise Undecided(f"not a number: {v!r}")

    def _ev(self, t):
        op, a = t.op, t.args
        if op == "num":
            return a[0]
        if op == "bool":
            return a[0]
        if op == "none":
            return None
        if op == "str":
            return a[0]
        if op == "sym":
            return self.symval(t)
        if op == "ite":
            # long chains: iterate
            while t.op == "ite":
                t = t.args[1] if self.cond(t.args[0]) else t.args[2]
            return self.ev(t)
        if op == "opq":
            raise Undecided(a[0])
        if op == "poly":
            s = Fraction(0)
            for c, m in a[0]:
                p = c
                for x, e in m:
                    p = self._mul(p, self._pow(self.num(x), e))
                s = self._add(s, p)
            return s
        if op == "seq":
            return tuple(self.ev(x) for x in a)
        if op == "fn":
            return self.fn(t)
        if op in ("lt0", "eq0", "eq", "truth", "isnone", "raises"):
            return self.cond(t)
        if op == "dict":
            return tuple((self.ev(kv.args[0]), self.ev(kv.args[2])) for kv in a if self.ev(kv.args[1]))
        if op == "kv":
            return tuple(self.ev(x) for x in a)
        if op == "set":
            return tuple(sorted({norm(self.ev(kv.args[0])) for kv in a if self.ev(kv.args[1])}, key=repr))
        if op == "qp":
            G, b = self.ev(a[0]), self.ev(a[1])
            allr = [self.ev(r) for r in a[2].args]
            zero = lambda x: abs(x) <= EPS
            rows = [v for v in allr if not qp_trivial(v, allr, b, zero)]
            rows = tuple(sorted(set(norm(r) for r in rows)))
            self.memo[("rows", t)] = allr
            return ("qp", norm(G), norm(b), rows)
        if op == "min":
            f, x0, bs, m, o, tol, cs = a
            return ("min", norm(self.ev(f)), norm(self.ev(x0)), norm(self.ev(bs)), self.ev(m), repr(self.ev(o)), repr(self.ev(tol)),
                    tuple(sorted(norm(self.ev(c)) for c in cs.args)))
        return (op,) + tuple(self.ev(x) if isinstance(x, Term) else x for x in a)

    def _mul(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            r = float(a) * float(b)
            if r != r:
                raise Reject("nan")
            return r
        return a * b

    def _add(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            r = float(a) + float(b)
            if r != r:
                raise Reject("nan")
            return r
        return a + b

    def _pow(self, x, e):
        if e == 1:
            return x
        if x == 0 and e < 0:
            raise Reject("division by zero")
        try:
            if isinstance(x, Fraction) and isinstance(e, Fraction) and e.denominator == 1 and abs(e) < 40:
                return x ** int(e)
            if float(x) < 0 and Fraction(e).denominator != 1:
                raise (Nan if float(x) < -1e-6 else Reject)("root of negative")
            return self.noise(float(x) ** float(e))
        except (OverflowError, ZeroDivisionError):
            raise Reject("overflow")

    def noise(self, v):
        """rounding noise, when the stability of a difference is being examined"""
        if self.jit is not None and isinstance(v, float):
            return v * (1.0 + 1e-12 * self.jit.uniform(-1, 1))
        return v

    def cond(self, a):
        op = a.op
        if op == "lt0":
            v = self.num(a.args[0])
            if isinstance(v, float) and abs(v) < EPS:
                raise Reject("ambiguous comparison")
            return v < 0
        if op == "eq0":
            v = self.num(a.args[0])
            if isinstance(v, float):
                if abs(v) < EPS:
                    raise Reject("ambiguous comparison")
                return False
            return v == 0
        if op == "eq":
            return norm(self.ev(a.args[0])) == norm(self.ev(a.args[1]))
        if op == "isnone":
            return self.ev(a.args[0]) is None
        if op == "truth":
            x = a.args[0]
            if x.op == "opq":
                raise Undecided(x.args[0])
            v = self.ev(x)
            return bool(v)
        return bool(h64(self.seed, a.op, norm(tuple(self.ev(x) for x in a.args))) & 1)

    def fn(self, t):
        name, args = t.args[0], t.args[1:]
        if name in ("min", "max"):
            vs = [self.num(x) for x in args]
            return min(vs) if name == "min" else max(vs)
        if name == "id":
            return self.num(args[0])
        if name == "pow":
            return self._pow(self.num(args[0]), self.num(args[1]))
        if len(args) == 1 and name in FN1:
            x = self.num(args[0])
            return self.noise(FN1[name](x))
        if name.startswith("selm"):
            sel, vs = self.num(args[0]), [self.num(x) for x in args[1:]]
            b = min(vs) if name == "selmin" else max(vs)
            if sum(1 for v in vs if v == b) > 1:
                raise Reject("derivative at a kink")
            return Fraction(int(sel == b))
        if name == "mod":
            x, y = self.num(args[0]), self.num(args[1])
            if y == 0:
                raise Reject("mod 0")
            return x % y
        if name == "arctan2":
            return self.noise(math.atan2(self.num(args[0]), self.num(args[1])))
        if name == "roundn":
            return Fraction(repr(round(float(self.num(args[0])), int(self.num(args[1])))))
        if name == "argsort":
            vs = [self.num(x) for x in args[:-1]]
            k = int(self.num(args[-1]))
            self.distinct(vs)
            return Fraction(sorted(range(len(vs)), key=lambda i: vs[i])[k])
        if name in ("argmin", "argmax"):
            vs = [self.num(x) for x in args]
            b = min(vs) if name == "argmin" else max(vs)
            return Fraction(vs.index(b))
        if name == "strcat":
            return str(self.strv(args[0])) + str(self.strv(args[1]))
        if name == "str":
            return "s:" + repr(norm(self.ev(args[0])))
        if name == "qp.x":
            return self.qpx(args)
        if name == "qp.act":
            kv = self.ev(args[1])
            if isinstance(kv, tuple) and kv and kv[0] == "qp" and norm(self.ev(args[0])) not in kv[3]:
                return False
        vals = tuple(norm(self.ev(x)) for x in args)
        h = h64(self.seed, name, vals)
        if (name, vals) in self.forced:
            return self.forced[name, vals]
        if name in vn.BOOL_FNS:
            return bool(h & 1)
        if t in vn.STRSYMS:
            return "§%x" % h
        if t in vn.BOUNDS:
            lo, hi = vn.BOUNDS[t]
            return Fraction(int(lo) + h % (int(hi) - int(lo) + 1))
        if t in vn.UNIT:
            return Fraction(h % 1001, 1000)
        return pick(h, self.mode, t in vn.POSITIVE)

    def strv(self, x):
        v = self.ev(x)
        return v if isinstance(v, str) else repr(norm(v))

    def distinct(self, vs):
        s = sorted(float(v) for v in vs)
        for x, y in zip(s, s[1:]):
            if y - x < EPS:
                raise Reject("tie in sort")

    def qpx(self, args):
        """solution component: any value consistent with the single-variable rows"""
        k = int(self.num(args[0]))
        key = args[1]
        kv = self.ev(key)
        if key.op != "qp":
            while key.op == "ite":
                key = key.args[1] if self.cond(key.args[0]) else key.args[2]
        x = self.forced.get(("qp.x", k, kv))
        if x is None:
            x = pick(h64(self.seed, "qp.x", k, kv), self.mode)
        lo, hi = None, None
        for r in self.memo.get(("rows", key), []):
            co, b = r[:-1], r[-1]
            if co[k] != 0 and all(c == 0 for j, c in enumerate(co) if j != k):
                v = self._mul(b, self._pow(co[k], Fraction(-1)))
                if co[k] > 0:
                    lo = v if lo is None else max(lo, v)
                else:
                    hi = v if hi is None else min(hi, v)
        if lo is not None:
            x = max(x, lo)
        if hi is not None:
            x = min(x, hi)
        return x


    # ---------------------------------------------------------------- directed valuations
    def force(self, t, target, rng, depth=0):
        """move the interpretation so that the term `t` takes (about) the value `target`"""
        if depth > 12:
            return False
        op = t.op
        if op == "sym":
            name = t.args[0]
            if t in self.fixed or name in ("pi", "inf") or t in vn.STRSYMS or t in vn.BOOL_SYMS or t in vn.BOUNDS or name in vn.INT_SYMS:
                return False
            if t in vn.POSITIVE and not target > 0:
                return False
            self.forced[name] = target
            self.memo.clear()
            return True
        if op == "ite":
            while t.op == "ite":
                t = t.args[1] if self.cond(t.args[0]) else t.args[2]
            return self.force(t, target, rng, depth + 1)
        if op == "poly":
            ms = list(t.args[0])
            rng.shuffle(ms)
            for c, m in ms:
                fs = list(m)
                if not fs:
                    continue
                rng.shuffle(fs)
                for x, e in fs[:3]:
                    if e not in (1, 2, -1):
                        continue
                    co = c
                    for y, f in m:
                        if y is not x:
                            co = self._mul(co, self._pow(self.num(y), f))
                    xv = self.num(x)
                    rest = self._add(self.num(t), -self._mul(co, self._pow(xv, e)))
                    if abs(co) < 1e-12:
                        continue
                    q = self._mul(self._add(target, -rest), self._pow(co, Fraction(-1)))
                    if e == -1:
                        if q == 0:
                            continue
                        q = self._pow(q, Fraction(-1))
                    if e == 2:
                        if q < 0:
                            continue
                        q = _sqrt(q)
                        if rng.random() < 0.5:
                            q = -q
                    if self.force(x, q, rng, depth + 1):
                        return True
            return False
        if op == "fn":
            name, args = t.args[0], t.args[1:]
            if name in ("min", "max"):
                vs = [self.num(x) for x in args]
                b = min(vs) if name == "min" else max(vs)
                return self.force(args[vs.index(b)], target, rng, depth + 1)
            if name == "id":
                return self.force(args[0], target, rng, depth + 1)
            if name == "abs":
                return target >= 0 and self.force(args[0], target if rng.random() < 0.5 else -target, rng, depth + 1)
            if name == "sqrt":
                return target >= 0 and self.force(args[0], self._mul(target, target), rng, depth + 1)
            if name in ("arccos", "arcsin"):
                return self.force(args[0], math.cos(target) if name == "arccos" else math.sin(target), rng, depth + 1)
            if name == "qp.x":
                key = (name, int(self.num(args[0])), self.ev(args[1]))
            elif name in NOFORCE or name in FN1 or name in vn.BOOL_FNS or t in vn.STRSYMS or t in vn.BOUNDS or t in vn.UNIT:
                return False
            else:
                if t in vn.POSITIVE and not target > 0:
                    return False
                key = (name, tuple(norm(self.ev(x)) for x in args))
            self.forced[key] = target
            self.memo.clear()
            return True
        return False


NOFORCE = {"pow", "mod", "arctan2", "roundn", "argsort", "argmin", "argmax", "strcat", "str", "qp.act", "selmin", "selmax"}
OFFSETS = [Fraction(0)] + [Fraction(s * k, d) for s in (1, -1) for k in (1, 7) for d in (10 ** 6, 10 ** 4, 1000, 100, 10, 2)]


def critical(t, seen, out):
    """expressions at whose zeros a term changes branch"""
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, Term):
                stack.append(a)
            elif isinstance(a, tuple):
                for c in a:
                    if isinstance(c, tuple) and len(c) == 2 and isinstance(c[1], tuple):
                        stack += [f[0] for f in c[1]]
        if x.op in ("lt0", "eq0"):
            out[x.args[0]] = None
        elif x.op == "fn" and x.args[0] in ("min", "max"):
            v = x.args[1:]
            for i in range(min(len(v), 6)):
                for j in range(i):
                    out[vn.sub(v[i], v[j])] = None
        elif x.op == "fn" and x.args[0] in ("abs", "sign"):
            out[x.args[1]] = None
    return out


def _sqrt(x):
    if x < 0:
        raise (Nan if x < -1e-6 else Reject)("sqrt of negative")
    if isinstance(x, Fraction):
        r = vn._isqrt(x)
        if r is not None:
            return r
    return math.sqrt(x)


def _dom(f, lo, hi):
    def g(x):
        if not lo <= x <= hi:
            raise (Nan if max(lo - x, x - hi) > 1e-6 else Reject)("domain")
        return f(x)
    return g


def _log(x):
    if x <= 0:
        raise (Nan if x < -1e-6 else Reject)("log")
    return math.log(x)


def _exp(x):
    if x > 200:
        raise Reject("overflow")
    return math.exp(x)


def _round(x):
    return Fraction(round(x))


def _inf(f):
    def g(x):
        if isinstance(x, float) and (x != x or abs(x) == math.inf):
            raise Reject("infinite")
        return f(x)
    return g


FN1 = {"sqrt": _sqrt, "abs": abs, "sin": _inf(math.sin), "cos": _inf(math.cos), "tan": _inf(math.tan), "arccos": _dom(math.acos, -1, 1),
       "arcsin": _dom(math.asin, -1, 1), "arctan": math.atan, "exp": _exp, "log": _log,
       "sign": lambda x: Fraction((x > 0) - (x < 0)), "floor": _inf(lambda x: Fraction(math.floor(x))), "ceil": _inf(lambda x: Fraction(math.ceil(x))),
       "round": _inf(_round), "int": _inf(lambda x: Fraction(int(x))), "tanh": math.tanh, "sinh": lambda x: (_exp(x) - 1 / _exp(x)) / 2,
       "cosh": lambda x: (_exp(x) + 1 / _exp(x)) / 2, "cbrt": lambda x: math.copysign(abs(float(x)) ** (1 / 3), x)}


def close(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, (Fraction, float, bool)) and isinstance(b, (Fraction, float, bool)):
        a = Fraction(int(a)) if isinstance(a, bool) else a
        b = Fraction(int(b)) if isinstance(b, bool) else b
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return a == b or abs(a - b) <= Fraction(1, 10 ** 10) * max(abs(a), abs(b))
        fa, fb = float(a), float(b)
        if fa == fb:
            return True
        if math.isinf(fa) or math.isinf(fb):
            return False
        return abs(fa - fb) <= 1e-7 * max(1.0, abs(fa), abs(fb))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def dist(a, b):
    if isinstance(a, (Fraction, float)) and isinstance(b, (Fraction, float)):
        if a == b:
            return 0.0
        return abs(float(a) - float(b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return max([dist(x, y) for x, y in zip(a, b)] or [0.0])
    return 0.0 if type(a) is type(b) and a == b else math.inf


def stable(s, a, b, va, vb):
    """the difference is not an artefact of rounding"""
    d = dist(va, vb)
    for k in range(3):
        s.memo.clear()
        s.jit = random.Random(h64(s.seed, k))
        try:
            ja, jb = s.ev(a), s.ev(b)
        except (Reject, Undecided):
            return False
        if close(ja, jb) or max(dist(va, ja), dist(vb, jb)) > 0.01 * min(d, 1e300):
            return False
    s.memo.clear()
    s.jit = None
    s.ev(a), s.ev(b)
    return True


def compare(guard, a, b, samples, seed=1, want=30):
    """random interpretation of `guard implies a == b`
    -> ('differ', sample, va, vb) | ('equal', n) | ('undecided', reason)"""
    ok, und, nans = 0, None, 0
    sa, sb = set(), set()
    ca, cb = critical(a, sa, {}), critical(b, sb, {})
    crit = list(dict.fromkeys(list(ca) + list(cb)))
    diff = [c for c in crit if (c in ca) != (c in cb)]
    sg = set()
    cg = critical(guard, sg, {}) if guard is not vn.TRUE else {}
    crit += [c for c in cg if c not in ca and c not in cb]
    directed = 0 if not crit else samples if not diff else max(samples, min((3 if b in (vn.TRUE, vn.FALSE) else 10) * samples, 120000 // (len(sa) + len(sb) + len(sg) + 1)))
    for k in range(samples + directed):
        s = Sample(seed * 1000003 + k)
        try:
            if k >= samples:
                rng = random.Random(h64(seed, k))
                for _ in range(rng.choice((1, 1, 2, 2, 3))):
                    c = rng.choice(diff if diff and rng.random() < 0.7 else crit)
                    s.force(c, rng.choice(OFFSETS), rng)
            if guard is not vn.TRUE and not s.ev(guard):
                continue
            vb = s.ev(b)
            try:
                va = s.ev(a)
            except Nan as e:
                # a region (not just a point) where only the program's value is undefined
                if k < samples and s.mode == 2:
                    nans += 1
                    if nans >= 3:
                        return ("differ", s, f"not a number ({e})", vb)
                continue
        except Reject:
            continue
        except Undecided as e:
            und = str(e)
            continue
        except RecursionError:
            und = "recursion"
            continue
        if not close(va, vb):
            if not stable(s, a, b, va, vb):
                continue
            return ("differ", s, va, vb)
        ok += 1
    if ok == 0:
        return ("undecided", und or "no admissible sample")
    return ("equal", ok)
