"""Most-general clients: specification code that is analysed together with the program.

A client (a function in specs/*.py) builds objects of the analysed program from symbolic inputs and
uninterpreted functions, drives them through a history and states obligations (CHECK*).  Clients
are analysed by the value-flow engine exactly like the program; nothing is executed."""
from __future__ import annotations

import os
import signal
import traceback

from . import vn, arr, interp as I, evalr
from .vn import T, Term, TRUE, FALSE, NONE, ZERO, ONE, num, string, ite, band, bnot, truth, seq
from .interp import PyTuple, GL, Intrinsic, ArrRef, ListRef, DictRef, Cond, ExcVal, Obj, UNDEF

SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")


class Timeout(Exception):
    pass


class Obligation:
    def __init__(self, client, label, guard, a, b):
        self.client, self.label, self.guard, self.a, self.b = client, label, guard, a, b
        self.result = None


def flat_args(p, args, st):
    out = []
    for a in args:
        if isinstance(a, DictRef):
            for k, (g, v) in p.ddict(st, a).items():
                out += flat_args(p, [v], st)
            continue
        t = p.canon(a, st)
        out += arr.flat(t)
    return out


class Runner:
    def __init__(self, root):
        self.p = I.Interp(root)
        self.obls = []
        self.client = None
        self.errors = []
        self.base = None
        self.install()

    def install(self):
        p = self.p
        table = {}

        def intr(name):
            def deco(f):
                table[name] = Intrinsic(name, f)
                return f
            return deco

        def s(v):
            return v.args[0]

        @intr("SYM")
        def _(a, kw, fr, st):
            return vn.sym(s(a[0]))

        @intr("POS")
        def _(a, kw, fr, st):
            t = vn.sym(s(a[0]))
            vn.POSITIVE.add(t)
            return t

        @intr("BOOLSYM")
        def _(a, kw, fr, st):
            t = vn.sym(s(a[0]))
            vn.BOOL_SYMS.add(t)
            return truth(t)

        @intr("INT")
        def _(a, kw, fr, st):
            t = vn.sym(s(a[0]))
            vn.INT_SYMS.add(s(a[0]))
            vn.BOUNDS[t] = (vn.cint(a[1]), vn.cint(a[2]))
            return t

        @intr("VEC")
        def _(a, kw, fr, st):
            return seq([vn.sym(f"{s(a[0])}{k}") for k in range(vn.cint(a[1]))])

        @intr("ARR")
        def _(a, kw, fr, st):
            return p.new_arr(st, seq([vn.sym(f"{s(a[0])}{k}") for k in range(vn.cint(a[1]))]))

        @intr("NP")
        def _(a, kw, fr, st):
            return p.new_arr(st, p.term(a[0], st))

        @intr("UF")
        def _(a, kw, fr, st):
            return vn.fnterm(s(a[0]), *flat_args(p, a[1:], st))

        @intr("UFPOS")
        def _(a, kw, fr, st):
            t = vn.fnterm(s(a[0]), *flat_args(p, a[1:], st))
            for _, l in arr._few_leaves(t):
                vn.POSITIVE.add(l)
            return t

        @intr("UFBOOL")
        def _(a, kw, fr, st):
            vn.BOOL_FNS.add(s(a[0]))
            return truth(vn.fnterm(s(a[0]), *flat_args(p, a[1:], st)))

        @intr("UFVEC")
        def _(a, kw, fr, st):
            n = vn.cint(a[1])
            fl = flat_args(p, a[2:], st)
            return seq([vn.fnterm(f"{s(a[0])}.{k}", *fl) for k in range(n)])

        @intr("UFMAT")
        def _(a, kw, fr, st):
            n, m = vn.cint(a[1]), vn.cint(a[2])
            fl = flat_args(p, a[3:], st)
            return seq([seq([vn.fnterm(f"{s(a[0])}.{i}.{j}", *fl) for j in range(m)]) for i in range(n)])

        @intr("ASSUME")
        def _(a, kw, fr, st):
            c = p.truthy(a[0], fr, st)
            st.h[("L", "assume")] = band(st.h.get(("L", "assume"), TRUE), c)
            return NONE

        @intr("CHECK")
        def _(a, kw, fr, st):
            c = p.truthy(a[1], fr, st)
            self.add(s(a[0]), st, c, TRUE)
            return NONE

        @intr("CHECK_EQ")
        def _(a, kw, fr, st):
            self.add(s(a[0]), st, p.canon(a[1], st), p.canon(a[2], st))
            return NONE

        @intr("CHECK_SET")
        def _(a, kw, fr, st):
            """equality of two (guarded) collections up to order and multiplicity"""
            def expand(v, g):
                """entries of a collection that may conditionally be something else"""
                if isinstance(v, Cond):
                    return expand(v.a, band(g, v.c)) + expand(v.b, band(g, bnot(v.c)))
                if isinstance(v, Term) and v.op == "ite":
                    c = vn.atom(v.args[0])
                    return expand(v.args[1], band(g, c)) + expand(v.args[2], band(g, bnot(c)))
                if isinstance(v, Term) and v.op == "none":
                    return [(g, string("<None instead of a collection>"))]
                return [(band(g, h), x) for h, x in p.iterate(v, fr, st)]

            def norm(v):
                d = {}
                for g, x in expand(v, TRUE):
                    t = p.canon(x, st)
                    def put(t, g):
                        if t.op == "ite":
                            c = vn.atom(t.args[0])
                            put(t.args[1], band(g, c))
                            put(t.args[2], band(g, bnot(c)))
                        elif g is not FALSE:
                            d[t] = vn.bor(d.get(t, FALSE), g)
                    put(t, g)
                return d
            x, y = norm(a[1]), norm(a[2])
            for k in sorted(set(x) | set(y), key=lambda t: vn.show(t)):
                self.add(f"{s(a[0])} [{vn.show(k)}]", st, x.get(k, FALSE), y.get(k, FALSE))
            return NONE

        @intr("FAIL")
        def _(a, kw, fr, st):
            self.add(s(a[0]), st, FALSE, TRUE)
            return NONE

        @intr("ALIAS")
        def _(a, kw, fr, st):
            """condition under which two values share mutable storage"""
            def refs(v, g):
                if isinstance(v, Cond):
                    return refs(v.a, band(g, v.c)) + refs(v.b, band(g, bnot(v.c)))
                if isinstance(v, (ArrRef, ListRef, DictRef)):
                    return [(g, (type(v).__name__, v.id))]
                return []
            c = FALSE
            for g, x in refs(a[0], TRUE):
                for h, y in refs(a[1], TRUE):
                    if x == y:
                        c = vn.bor(c, band(g, h))
            return c

        @intr("EVENTS")
        def _(a, kw, fr, st):
            ev = p.rd(st, ("L", "ev"))
            e = ev.e if isinstance(ev, GL) else ()
            k = s(a[0])
            return GL([(g, v) for g, v in e if v.vals[0].args[0] == k])

        @intr("CLEAR_EVENTS")
        def _(a, kw, fr, st):
            st.h[("L", "ev")] = GL(())
            return NONE

        @intr("COUNT")
        def _(a, kw, fr, st):
            return p.length(a[0], fr, st)

        @intr("DRAW")
        def _(a, kw, fr, st):
            """the one random number of the given kind that a value contains"""
            es = {x for x in vn.subterms(p.term(a[0], st)) if x.op == "fn" and x.args[0] == "env" and x.args[1] == string(s(a[1]))}
            if not es:
                return vn.sym("no random number")
            if len(es) != 1:
                return p.unknown(f"{len(es)} random numbers of kind {s(a[1])}")
            return es.pop()

        @intr("IDENTICAL")
        def _(a, kw, fr, st):
            """two values are the same expression"""
            return TRUE if p.term(a[0], st) is p.term(a[1], st) else FALSE

        @intr("FREEVARS")
        def _(a, kw, fr, st):
            return NONE

        @intr("SHOW")
        def _(a, kw, fr, st):
            print("SHOW", *[vn.show(p.term_or_opq(x, st), 12) if not isinstance(x, (Obj,)) else repr(x) for x in a])
            return NONE

        @intr("FIELDS")
        def _(a, kw, fr, st):
            """names of the attributes currently stored on an object"""
            return p.new_list(st, [string(k[2]) for k in st.h if k[0] == "a" and k[1] == a[0].id])

        self.intr = table
        orig = p.ext.builtin

        def builtin(name):
            if name in table:
                return table[name]
            return orig(name)
        p.ext.builtin = builtin

    def add(self, label, st, a, b):
        g = band(st.h.get(("L", "assume"), TRUE), st.pc)
        for fr_pc in ():
            pass
        self.obls.append(Obligation(self.client, label, g, a, b))

    # ------------------------------------------------------------------
    def load_spec(self, name):
        key = "spec_" + name
        if key in self.p.mods:
            return key
        path = os.path.join(SPECS, name + ".py")
        with open(path, encoding="utf-8") as f:
            self.p.load_source(key, f.read(), path)
        return key

    def run(self, spec, func, cfg, budget=120):
        p = self.p
        mod = self.load_spec(spec)
        f = p.state.h.get(("g", mod, func), UNDEF)
        if f is UNDEF:
            raise I.AnalysisError(f"client {spec}.{func} not found")
        cname = func + ("(" + ", ".join(f"{k}={v}" for k, v in cfg.items()) + ")" if cfg else "")
        self.client = cname
        st = p.state.copy()
        st.h[("L", "ev")] = GL(())
        st.h[("L", "rnd")] = ZERO
        st.h[("L", "assume")] = TRUE
        fr = I.Frame(p.new_id(), "<client>", p.mods[mod])
        n0, notes0 = len(self.obls), len(p.notes)
        kw = {k: lit(v) for k, v in cfg.items()}
        err = None

        def onalarm(*_):
            raise Timeout()
        old = signal.signal(signal.SIGPROF, onalarm)      # processor time: a loaded machine decides as much as an idle one
        signal.setitimer(signal.ITIMER_PROF, budget)
        try:
            p.call(f, [], kw, fr, st)
        except I.Dead:
            pass
        except Timeout:
            err = f"time budget of {budget}s"
        except (I.Unsupported, arr.ShapeError, I.AnalysisError, RecursionError) as e:
            err = f"{type(e).__name__}: {e}"
        except Exception as e:  # an engine defect must never look like a verdict
            err = "engine: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + traceback.format_exc().strip().splitlines()[-3].strip()
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
        # exceptions of the program that escape the client
        ass = st.h.get(("L", "assume"), TRUE)
        for pc, exc, s2 in getattr(fr, "raised", []):
            g = band(pc, s2.h.get(("L", "assume"), TRUE))
            if g is FALSE:
                continue
            nm = exc.name if isinstance(exc, ExcVal) else exc.cls.name if isinstance(exc, Obj) else "exception"
            det = "; ".join(vn.show(a) for a in getattr(exc, "args", ()) if isinstance(a, Term))[:160]
            if isinstance(exc, ExcVal) and len(p.notes) > notes0:
                self.errors.append((cname, f"escaping {nm} {det} after unmodelled constructs"))
                continue
            self.obls.append(Obligation(cname, f"no {nm} escapes ({det}; raised in {getattr(exc, 'where', '?')})", g, FALSE, TRUE))
        p.stack.clear()
        p.tracing.clear()
        p.replaying.clear()
        if err:
            self.errors.append((cname, err))
        return self.obls[n0:], p.notes[notes0:], err


def lit(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, float)):
        return num(v)
    return string(v)


def decide(o, samples, seed):
    if o.guard is FALSE:
        return ("vacuous", None)
    if o.a is o.b:
        return ("equal", 0)
    if vn.ite(o.guard, TRUE, FALSE) is FALSE:
        return ("vacuous", None)
    return evalr.compare(o.guard, o.a, o.b, samples, seed)
