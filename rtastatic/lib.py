"""Models of the standard library modules that code is commonly restructured with: itertools, operator,
functools, collections, contextlib, dataclasses."""
from __future__ import annotations

import ast

from . import vn, arr
from .vn import Term, TRUE, FALSE, NONE, ZERO, ONE, num, string, ite, band, bor, bnot
from .arr import Unsupported, ShapeError
from .interp import (PyTuple, GL, FuncVal, Bound, ClassVal, ExtVal, ExtObj, Obj, ListRef, DictRef, ArrRef, Partial, Cond, Intrinsic, Range,
                     IterRef, InfIter, LruFn, CtxFactory, CachedProp, UNDEF, vite)


class DequeRef(ListRef):
    __slots__ = ("maxlen",)


class DefDict(DictRef):
    __slots__ = ("factory",)


BIN = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "floordiv": ast.FloorDiv, "mod": ast.Mod, "pow": ast.Pow,
       "matmul": ast.MatMult, "and_": ast.BitAnd, "or_": ast.BitOr, "xor": ast.BitXor, "concat": ast.Add, "iconcat": ast.Add,
       "lshift": ast.LShift, "rshift": ast.RShift}
CMP = {"lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE, "eq": ast.Eq, "ne": ast.NotEq, "is_": ast.Is, "is_not": ast.IsNot}


class Lib:
    def plain(self, v, fr, st, what):
        e = self.p.iterate(v, fr, st)
        if any(g is not TRUE for g, _ in e):
            raise Unsupported(what + " over a conditional list")
        return [x for _, x in e]

    def streams(self, args, fr, st):
        """entries of several iterables walked together (unbounded ones are cut to the longest finite one)"""
        p = self.p
        fin = {k: p.iterate(a, fr, st) for k, a in enumerate(args) if not isinstance(a, InfIter)}
        if not fin:
            raise Unsupported("only unbounded iterators")
        n = min(len(e) for e in fin.values())
        return [fin[k] if k in fin else p.take(a, n, st) for k, a in enumerate(args)]

    # ------------------------------------------------------------ itertools
    def x_itertools_chain(self, args, kw, fr, st):
        return self.p.new_iter(st, sum([tuple(self.p.iterate(a, fr, st)) for a in args], ()))

    def x_itertools_chain_from_iterable(self, args, kw, fr, st):
        out = ()
        for g, v in self.p.iterate(args[0], fr, st):
            out += tuple((band(g, h), x) for h, x in self.p.iterate(v, fr, st))
        return self.p.new_iter(st, out)

    def x_itertools_accumulate(self, args, kw, fr, st):
        p = self.p
        f = args[1] if len(args) > 1 else kw.get("func", NONE)
        vals = self.plain(args[0], fr, st, "accumulate")
        out = []
        if kw.get("initial", NONE) is not NONE:
            out.append(kw["initial"])
        for v in vals:
            if not out:
                out.append(v)
            elif f is NONE:
                out.append(p.binop(ast.Add(), out[-1], v, fr, st))
            else:
                out.append(p.call(f, [out[-1], v], {}, fr, st))
        return p.new_iter(st, [(TRUE, v) for v in out])

    def x_itertools_product(self, args, kw, fr, st):
        es = [self.p.iterate(a, fr, st) for a in args]
        rep = vn.cint(self.p.term(kw["repeat"], st)) if "repeat" in kw else 1
        out = [(TRUE, ())]
        for e in es * rep:
            out = [(band(g, h), t + (v,)) for g, t in out for h, v in e]
        return self.p.new_iter(st, [(g, PyTuple(t)) for g, t in out if g is not FALSE])

    def x_itertools_islice(self, args, kw, fr, st):
        p = self.p
        ks = [None if a is NONE else vn.cint(p.term(a, st)) for a in args[1:]]
        if any(k is None and a is not NONE for k, a in zip(ks, args[1:])):
            raise Unsupported("islice")
        sl = slice(*ks)
        if isinstance(args[0], InfIter):
            if sl.stop is None:
                raise Unsupported("islice of an unbounded iterator")
            return p.new_iter(st, p.take(args[0], sl.stop, st)[sl])
        if isinstance(args[0], IterRef):
            e = p.peek(args[0], st)
            if any(g is not TRUE for g, _ in e):
                raise Unsupported("islice over a conditional list")
            p.wr(st, ("I", args[0].id), GL(e[sl.stop:] if sl.stop is not None else ()))
            return p.new_iter(st, e[sl])
        return p.new_iter(st, [(TRUE, v) for v in self.plain(args[0], fr, st, "islice")[sl]])

    def x_itertools_repeat(self, args, kw, fr, st):
        n = args[1] if len(args) > 1 else kw.get("times")
        if n is None:
            return self.p.new_inf(st, lambda k: args[0])
        return self.p.new_iter(st, [(g, args[0]) for g, _ in self.p.iter_range(Range(ZERO, self.p.term(n, st), ONE))])

    def x_itertools_count(self, args, kw, fr, st):
        p = self.p
        a = p.term(args[0] if args else kw.get("start", ZERO), st)
        s = p.term(args[1] if len(args) > 1 else kw.get("step", ONE), st)
        return p.new_inf(st, lambda k: vn.add(a, vn.mul(num(k), s)))

    def x_itertools_cycle(self, args, kw, fr, st):
        vals = self.plain(args[0], fr, st, "cycle")
        if not vals:
            return self.p.new_iter(st, ())
        return self.p.new_inf(st, lambda k: vals[k % len(vals)])

    def x_itertools_starmap(self, args, kw, fr, st):
        p = self.p
        return p.new_iter(st, [(g, p.under(g, lambda s, v=v: p.call(args[0], self.plain(v, fr, s, "starmap"), {}, fr, s), st))
                               for g, v in p.iterate(args[1], fr, st)])

    def x_itertools_compress(self, args, kw, fr, st):
        p = self.p
        out = []
        for g, t in self.zip(self.streams(args, fr, st)).e:
            c = band(g, p.truthy(t.vals[1], fr, st))
            if c is not FALSE:
                out.append((c, t.vals[0]))
        return p.new_iter(st, out)

    def x_itertools_takewhile(self, args, kw, fr, st, drop=False):
        p = self.p
        out, run = [], TRUE
        for g, v in p.iterate(args[1], fr, st):
            run = band(run, bor(bnot(g), p.truthy(p.call(args[0], [v], {}, fr, st), fr, st)))
            c = band(g, bnot(run) if drop else run)
            if c is not FALSE:
                out.append((c, v))
        return p.new_iter(st, out)

    def x_itertools_dropwhile(self, args, kw, fr, st):
        return self.x_itertools_takewhile(args, kw, fr, st, drop=True)

    def x_itertools_filterfalse(self, args, kw, fr, st):
        p = self.p
        out = []
        for g, v in p.iterate(args[1], fr, st):
            c = band(g, bnot(p.truthy(v if args[0] is NONE else p.call(args[0], [v], {}, fr, st), fr, st)))
            if c is not FALSE:
                out.append((c, v))
        return p.new_iter(st, out)

    def x_itertools_pairwise(self, args, kw, fr, st):
        vals = self.plain(args[0], fr, st, "pairwise")
        return self.p.new_iter(st, [(TRUE, PyTuple(t)) for t in zip(vals, vals[1:])])

    def x_itertools_zip_longest(self, args, kw, fr, st):
        es = [self.plain(a, fr, st, "zip_longest") for a in args]
        fill = kw.get("fillvalue", NONE)
        n = max([len(e) for e in es], default=0)
        return self.p.new_iter(st, [(TRUE, PyTuple([e[k] if k < len(e) else fill for e in es])) for k in range(n)])

    def x_itertools_combinations(self, args, kw, fr, st):
        import itertools
        k = vn.cint(self.p.term(args[1], st))
        if k is None:
            raise Unsupported("combinations")
        return self.p.new_iter(st, [(TRUE, PyTuple(t)) for t in itertools.combinations(self.plain(args[0], fr, st, "combinations"), k)])

    def x_itertools_permutations(self, args, kw, fr, st):
        import itertools
        k = vn.cint(self.p.term(args[1], st)) if len(args) > 1 else None
        return self.p.new_iter(st, [(TRUE, PyTuple(t)) for t in itertools.permutations(self.plain(args[0], fr, st, "permutations"), k)])

    def x_itertools_tee(self, args, kw, fr, st):
        e = self.p.iterate(args[0], fr, st)
        n = vn.cint(self.p.term(args[1], st)) if len(args) > 1 else 2
        return PyTuple([self.p.new_iter(st, e) for _ in range(n)])

    def x_itertools_groupby(self, args, kw, fr, st):
        p = self.p
        f = args[1] if len(args) > 1 else kw.get("key", NONE)
        out = []
        for v in self.plain(args[0], fr, st, "groupby"):
            k = v if f is NONE else p.call(f, [v], {}, fr, st)
            c = p.truthy(p.equal(out[-1][0], k, fr, st), fr, st) if out else FALSE
            if c is TRUE:
                out[-1][1].append(v)
            elif c is FALSE:
                out.append((k, [v]))
            else:
                raise Unsupported("groupby on symbolic keys")
        return p.new_iter(st, [(TRUE, PyTuple([k, p.new_iter(st, [(TRUE, v) for v in vs])])) for k, vs in out])

    # ------------------------------------------------------------ operator
    def operator(self, name, args, kw, fr, st):
        p = self.p
        n = name[1:] if name.startswith("i") and name[1:] in BIN and name not in BIN else name
        if n in BIN:
            if n != name:
                return p.inplace(BIN[n](), args[0], args[1], fr, st)
            return p.binop(BIN[n](), args[0], args[1], fr, st)
        if name in CMP:
            return p.compare(CMP[name](), args[0], args[1], fr, st)
        if name in ("neg", "pos", "inv", "invert"):
            return p.unary({"neg": ast.USub, "pos": ast.UAdd}.get(name, ast.Invert)(), args[0], st)
        if name == "not_":
            return bnot(p.truthy(args[0], fr, st))
        if name == "truth":
            return p.truthy(args[0], fr, st)
        if name == "abs":
            return self.call_builtin("abs", args, kw, fr, st)
        if name == "index":
            return args[0]
        if name == "contains":
            return p.contains(args[0], args[1], fr, st)
        if name == "getitem":
            return p.getitem(args[0], args[1], fr, st)
        if name == "setitem":
            p.setitem(args[0], args[1], args[2], fr, st)
            return NONE
        if name == "call":
            return p.call(args[0], args[1:], kw, fr, st)
        if name == "itemgetter":
            keys = list(args)

            def ig(a, k, f, s):
                vs = [p.getitem(a[0], i, f, s) for i in keys]
                return vs[0] if len(vs) == 1 else PyTuple(vs)
            return Intrinsic("itemgetter", ig)
        if name == "attrgetter":
            names = [a.args[0] for a in args if isinstance(a, Term) and a.op == "str"]
            if len(names) != len(args):
                raise Unsupported("attrgetter")

            def ag(a, k, f, s):
                vs = []
                for nm in names:
                    v = a[0]
                    for part in nm.split("."):
                        v = p.getattr(v, part, f, s)
                    vs.append(v)
                return vs[0] if len(vs) == 1 else PyTuple(vs)
            return Intrinsic("attrgetter", ag)
        if name == "methodcaller":
            m, rest, k0 = args[0], list(args[1:]), dict(kw)
            if not (isinstance(m, Term) and m.op == "str"):
                raise Unsupported("methodcaller")
            return Intrinsic("methodcaller", lambda a, k, f, s: p.call(p.getattr(a[0], m.args[0], f, s), rest, k0, f, s))
        raise Unsupported("operator." + name)

    # ------------------------------------------------------------ functools
    def x_functools_wraps(self, args, kw, fr, st):
        return Intrinsic("wraps", lambda a, k, f, s: a[0])

    def x_functools_update_wrapper(self, args, kw, fr, st):
        return args[0]

    def x_functools_lru_cache(self, args, kw, fr, st):
        p = self.p
        if args and not isinstance(args[0], Term):
            return LruFn(p.new_id(), args[0])
        m = args[0] if args else kw.get("maxsize", num(128))
        if isinstance(m, Term) and vn.cint(m) == 0:
            return Intrinsic("uncached", lambda a, k, f, s: a[0])
        return Intrinsic("lru_cache", lambda a, k, f, s: LruFn(p.new_id(), a[0]))

    x_functools_cache = x_functools_lru_cache

    def x_functools_cached_property(self, args, kw, fr, st):
        return CachedProp(args[0])

    def x_functools_partialmethod(self, args, kw, fr, st):
        raise Unsupported("partialmethod")

    # ------------------------------------------------------------ contextlib
    def x_contextlib_contextmanager(self, args, kw, fr, st):
        return CtxFactory(args[0])

    def x_contextlib_suppress(self, args, kw, fr, st):
        return ExtObj("suppress", args, {}, self.p.new_id())

    def x_contextlib_nullcontext(self, args, kw, fr, st):
        return ExtObj("nullcontext", [args[0] if args else kw.get("enter_result", NONE)], {}, self.p.new_id())

    def x_contextlib_ExitStack(self, args, kw, fr, st):
        return ExtObj("ExitStack", [self.p.new_list(st)], {}, self.p.new_id())

    def x_contextlib_closing(self, args, kw, fr, st):
        return ExtObj("nullcontext", [args[0]], {}, self.p.new_id())

    # ------------------------------------------------------------ collections
    def x_collections_deque(self, args, kw, fr, st):
        p = self.p
        e = p.iterate(args[0], fr, st) if args else ()
        m = args[1] if len(args) > 1 else kw.get("maxlen", NONE)
        k = None if m is NONE else vn.cint(p.term(m, st))
        if m is not NONE and k is None:
            raise Unsupported("deque of symbolic length")
        r = DequeRef(p.new_id())
        r.maxlen = k
        p.wr(st, ("L", r.id), GL(self.trim(e, k, False)))
        return r

    def trim(self, e, k, left):
        if k is None or len(e) <= k:
            return e
        if any(g is not TRUE for g, _ in e):
            raise Unsupported("bounded deque of a conditional list")
        return e[:k] if left else e[len(e) - k:]

    def x_collections_defaultdict(self, args, kw, fr, st):
        p = self.p
        r = DefDict(p.new_dict(st).id)
        r.factory = args[0] if args else NONE
        if len(args) > 1:
            p.dict_update(r, args[1], fr, st)
        for k, v in kw.items():
            p.setitem(r, string(k), v, fr, st)
        return r

    def x_collections_Counter(self, args, kw, fr, st):
        p = self.p
        r = DefDict(p.new_dict(st).id)
        r.factory = ExtVal("int")
        if args and isinstance(args[0], DictRef):
            p.dict_update(r, args[0], fr, st)
        elif args:
            for v in self.plain(args[0], fr, st, "Counter"):
                p.setitem(r, v, p.binop(ast.Add(), self.dd_get(r, v, fr, st), ONE, fr, st), fr, st)
        return r

    def dd_get(self, o, k, fr, st):
        p = self.p
        if not isinstance(k, Term):
            k = p.canon(k, st)
        d = p.ddict(st, o)
        has = p.dict_has(d, k)
        if has is TRUE:
            return p.dict_get(d, k, st)
        if o.factory is NONE:
            return p.dict_get(d, k, st)

        def fresh(s):
            v = p.call(o.factory, [], {}, fr, s)
            p.setitem(o, k, v, fr, s)
            return v
        return p.branch(has, lambda s: p.dict_get(p.ddict(s, o), k, s), fresh, st)

    def x_collections_namedtuple(self, args, kw, fr, st):
        p = self.p
        v = args[1]
        names = v.args[0].replace(",", " ").split() if isinstance(v, Term) and v.op == "str" else [x.args[0] for x in self.plain(v, fr, st, "namedtuple")]
        dflt = self.plain(kw["defaults"], fr, st, "namedtuple") if "defaults" in kw else []

        def make(a, k, f, s):
            return self.fill_tuple(names, dict(zip(names[len(names) - len(dflt):], dflt)), a, k, None, f, s)
        r = Intrinsic("namedtuple", make)
        r.fields = names
        return r

    def fill_tuple(self, names, dflt, a, k, cls, fr, st):
        p = self.p
        vals = dict(zip(names, a))
        if len(a) > len(names) or any(x not in names or x in vals for x in k):
            p.fail("TypeError", "fields", fr, st)
        vals.update(k)
        for n in names:
            if n not in vals:
                if n not in dflt:
                    p.fail("TypeError", "missing field " + n, fr, st)
                vals[n] = dflt[n]
        r = PyTuple([vals[n] for n in names], tuple(names))
        r.cls = cls
        return r

    # ------------------------------------------------------------ dataclasses
    def x_dataclasses_dataclass(self, args, kw, fr, st):
        if args:
            args[0].attrs["__dataclass__"] = TRUE
            return args[0]
        return ExtObj("dataclass", (), kw, self.p.new_id())

    def x_dataclasses_field(self, args, kw, fr, st):
        return ExtObj("field", (), kw, self.p.new_id())

    def fields_of(self, o):
        out = []
        for c in reversed(o.cls.mro):
            if isinstance(c, ClassVal):
                for n, _ in c.annotations:
                    if n not in out:
                        out.append(n)
        return out

    def x_dataclasses_replace(self, args, kw, fr, st):
        p, o = self.p, args[0]
        if not isinstance(o, Obj):
            raise Unsupported("dataclasses.replace")
        vals = {n: p.getattr(o, n, fr, st) for n in self.fields_of(o)}
        vals.update(kw)
        return p.instantiate(o.cls, [], vals, fr, st)

    def x_dataclasses_asdict(self, args, kw, fr, st):
        p, o = self.p, args[0]
        if not isinstance(o, Obj):
            raise Unsupported("dataclasses.asdict")
        return p.new_dict(st, {string(n): (TRUE, self.deepcopy(p.getattr(o, n, fr, st), st)) for n in self.fields_of(o)})

    def x_dataclasses_astuple(self, args, kw, fr, st):
        p, o = self.p, args[0]
        return PyTuple([self.deepcopy(p.getattr(o, n, fr, st), st) for n in self.fields_of(o)])
