"""Whole-program value-flow analysis over the Python AST.

The analysed program is never imported or executed: its syntax trees are interpreted over an
abstract domain of value numbers (vn.py).  Branches on undecided conditions are analysed on both
sides and joined with gated values (no path enumeration, no constraint solver); function calls are
resolved through the class hierarchy (C3) and the abstract heap; numpy arrays are heap cells (so
aliasing and in-place mutation are visible), jax arrays are immutable values; `jax.jit` keeps the
values its trace consumed (so stale reads are visible).
"""
from __future__ import annotations

import ast
import builtins
import copy
import functools
import itertools
import threading
import os

from . import vn, arr
from .vn import T, Term, TRUE, FALSE, NONE, ZERO, ONE, num, string, ite, band, bor, bnot, truth, opq, seq
from .arr import Unsupported, ShapeError

UNROLL_SYMBOLIC = 5
UNROLL_CONCRETE = 5000


class Dead(Exception):
    """every continuation of the current point raises"""


class AnalysisError(Exception):
    pass


# ------------------------------------------------------------------ values
class PyTuple:
    __slots__ = ("vals", "names", "cls")

    def __init__(self, vals, names=None, cls=None):
        self.vals = tuple(vals)
        self.names = names
        self.cls = cls


class GL:
    """guarded list: tuple of (guard, value) -- immutable"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)


class FuncVal:
    def __init__(self, node, mod, closure, defaults, kwdefaults, qual, cls=None):
        self.node, self.mod, self.closure = node, mod, closure
        self.defaults, self.kwdefaults, self.qual, self.cls = defaults, kwdefaults, qual, cls


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class ClassVal:
    def __init__(self, name, mod, node, bases):
        self.name, self.mod, self.node, self.bases = name, mod, node, bases
        self.attrs = {}
        self.annotations = []
        self.mro = c3(self)

    def __repr__(self):
        return f"<class {self.name}>"


class ExtVal:
    _t = {}

    def __new__(cls, path):
        r = cls._t.get(path)
        if r is None:
            r = object.__new__(cls)
            r.path = path
            cls._t[path] = r
        return r

    def __repr__(self):
        return f"<ext {self.path}>"


class ExtObj:
    def __init__(self, path, args=(), kw=None, oid=None):
        self.path, self.args, self.kw, self.id = path, tuple(args), dict(kw or {}), oid

    def __repr__(self):
        return f"<extobj {self.path}>"


class ModVal:
    def __init__(self, name):
        self.name = name


class Obj:
    __slots__ = ("id", "cls")

    def __init__(self, oid, cls):
        self.id, self.cls = oid, cls

    def __repr__(self):
        return f"<{self.cls.name} #{self.id}>"


class ListRef:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i


class DictRef:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i


class SetRef:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i


class ArrRef:
    """numpy array: a heap cell, or a view (path of basic indices) of one"""
    __slots__ = ("id", "path")

    def __init__(self, i, path=()):
        self.id, self.path = i, path


class Range:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class PropertyVal:
    def __init__(self, get, set_=None):
        self.get, self.set = get, set_


class CachedProp:
    """functools.cached_property: computed at the first read, then an ordinary instance attribute"""
    def __init__(self, get):
        self.get = get


class LruFn:
    """functools.lru_cache / cache of a function: results are remembered per argument tuple"""
    def __init__(self, i, f):
        self.id, self.f = i, f


class CtxFactory:
    """function decorated with contextlib.contextmanager"""
    def __init__(self, f):
        self.f = f


class CtxGen:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class IterRef:
    """iterator: the heap cell holds what has not been consumed yet"""
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i


class InstDict:
    """obj.__dict__"""
    def __init__(self, obj):
        self.obj = obj


class InfIter:
    """unbounded iterator: element number k is nth(k); the heap cell counts what was consumed"""
    __slots__ = ("id", "nth")

    def __init__(self, i, nth):
        self.id, self.nth = i, nth


class MapIter(InfIter):
    """unbounded iterator over elements of other unbounded iterators, taken when they are asked for"""
    __slots__ = ("src", "fn")


class GenCore:
    """the suspended body of an endless generator"""


class GenIter(InfIter):
    """a generator whose loop has no end: its body runs as a coroutine, one element at a time, on the state of the consumer"""
    __slots__ = ("core",)

    def __del__(self):
        if self.core.thread is not None:       # nothing can ask for another element
            self.core.dropped = True
            self.core.turn.release()


class View:
    """an index path element of an array view that is not plain indexing"""
    __slots__ = ("kind", "arg")

    def __init__(self, kind, arg=None):
        self.kind, self.arg = kind, arg

    def __eq__(self, o):
        return isinstance(o, View) and (self.kind, self.arg) == (o.kind, o.arg)

    def __hash__(self):
        return hash((self.kind, self.arg))

    def fwd(self, t):
        if self.kind == "T":
            return arr.transpose(t)
        return arr.unflat(arr.flat(t), self.arg)

    def back(self, v, like):
        if self.kind == "T":
            return arr.transpose(v)
        return arr.unflat(arr.flat(v), arr.shape(like))


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class JitFn:
    def __init__(self, jid, f, static_names, static_nums):
        self.id, self.f, self.static_names, self.static_nums = jid, f, static_names, static_nums


class VmapFn:
    def __init__(self, f, in_axes, out_axes):
        self.f, self.in_axes, self.out_axes = f, in_axes, out_axes


class GradFn:
    def __init__(self, kind, f, argnum, has_aux):
        self.kind, self.f, self.argnum, self.has_aux = kind, f, argnum, has_aux


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class SuperVal:
    def __init__(self, obj, after):
        self.obj, self.after = obj, after


class AtHelper:
    def __init__(self, arr_, path=None):
        self.arr, self.path = arr_, path


class SliceVal:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class Cond:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class ExcVal:
    """instance of an exception class outside the repository"""
    def __init__(self, name, args=(), key=None):
        self.name, self.args, self.key = name, tuple(args), key


class BuiltinM:
    """method of a builtin value: (receiver, name)"""
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Intrinsic:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class _Undef:
    def __repr__(self):
        return "<undef>"


UNDEF = _Undef()


class Trace:
    def __init__(self, wm):
        self.wm, self.reads, self.writes = wm, {}, set()


def c3(cls):
    def merge(seqs):
        out = []
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise AnalysisError("inconsistent MRO for " + cls.name)
            out.append(h)
            seqs = [[x for x in t if x is not h] if t and t[0] is h else t for t in seqs]

    ms = [list(b.mro) if isinstance(b, ClassVal) else [b] for b in cls.bases]
    return [cls] + merge(ms + [list(cls.bases)])


BUILTIN_EXC = {
    "Exception": None, "BaseException": None, "ValueError": "Exception", "TypeError": "Exception", "KeyError": "LookupError",
    "IndexError": "LookupError", "LookupError": "Exception", "AssertionError": "Exception", "NotImplementedError": "RuntimeError",
    "RuntimeError": "Exception", "UserWarning": "Warning", "Warning": "Exception", "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "NameError": "Exception", "UnboundLocalError": "NameError", "StopIteration": "Exception", "AttributeError": "Exception", "OSError": "Exception",
    "FloatingPointError": "ArithmeticError", "RuntimeWarning": "Warning", "DeprecationWarning": "Warning",
}


def exc_sub(a, b):
    while a is not None:
        if a == b or b == "BaseException":
            return True
        a = BUILTIN_EXC.get(a)
    return False


# ------------------------------------------------------------------ joins
def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Bound):
        return same(a.obj, b.obj) and same(a.func, b.func)
    if isinstance(a, FuncVal):
        return a.node is b.node and a.closure == b.closure
    if isinstance(a, (ListRef, DictRef, SetRef, Obj, IterRef, InfIter)):
        return a.id == b.id
    if isinstance(a, ArrRef):
        return a.id == b.id and a.path == b.path
    if isinstance(a, ExtObj):
        return a.path == b.path and a.id == b.id and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args)) \
            and a.kw.keys() == b.kw.keys() and all(same(a.kw[k], b.kw[k]) for k in a.kw)
    if isinstance(a, PyTuple):
        return len(a.vals) == len(b.vals) and all(same(x, y) for x, y in zip(a.vals, b.vals))
    if isinstance(a, GL):
        return len(a.e) == len(b.e) and all(g is h and same(x, y) for (g, x), (h, y) in zip(a.e, b.e))
    if isinstance(a, dict):
        return list(a) == list(b) and all(a[k][0] is b[k][0] and same(a[k][1], b[k][1]) for k in a)
    if isinstance(a, Cond):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    return False


def restrict_val(v, atom, val):
    if isinstance(v, Term):
        return vn.restrict(v, atom, val)
    if isinstance(v, Cond):
        c = vn.restrict(v.c, atom, val)
        return vite(c, restrict_val(v.a, atom, val), restrict_val(v.b, atom, val))
    if isinstance(v, PyTuple):
        return PyTuple([restrict_val(x, atom, val) for x in v.vals], v.names, v.cls)
    return v


def vite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b or same(a, b):
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, Term) and isinstance(b, Term):
        return ite(c, a, b)
    if isinstance(a, PyTuple) and isinstance(b, PyTuple) and len(a.vals) == len(b.vals):
        return PyTuple([vite(c, x, y) for x, y in zip(a.vals, b.vals)], a.names, a.cls)
    if isinstance(a, GL) and isinstance(b, GL):
        return merge_list(c, a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        return merge_dict(c, a, b)
    if isinstance(a, Trace) or isinstance(b, Trace):
        if isinstance(a, Trace) and isinstance(b, Trace) and a.reads.keys() == b.reads.keys() \
                and all(same(a.reads[k], b.reads[k]) for k in a.reads):
            return a
        return UNDEF
    # drop decided sub-choices
    if isinstance(a, Cond) and a.c is c:
        a = a.a
    if isinstance(b, Cond) and b.c is c:
        b = b.b
    if a is b or same(a, b):
        return a
    if isinstance(a, Cond) and same(a.a, b):
        return vite(band(c, bnot(a.c)), a.b, b)
    if isinstance(a, Cond) and same(a.b, b):
        return vite(band(c, a.c), a.a, b)
    if isinstance(b, Cond) and same(b.a, a):
        return vite(bor(c, b.c), a, b.b)
    if isinstance(b, Cond) and same(b.b, a):
        return vite(band(bnot(c), b.c), b.a, a)
    return Cond(c, a, b)


def merge_list(c, a, b):
    a, b = a.e, b.e
    n = 0
    while n < len(a) and n < len(b) and a[n][0] is b[n][0] and same(a[n][1], b[n][1]):
        n += 1
    r1, r2 = a[n:], b[n:]
    out = list(a[:n])
    if len(r1) == len(r2):
        out += [(ite(c, g, h), vite(c, x, y)) for (g, x), (h, y) in zip(r1, r2)]
    else:
        m = bnot(c)
        out += [(band(g, c), x) for g, x in r1] + [(band(g, m), y) for g, y in r2]
    return GL([(g, x) for g, x in out if g is not FALSE])


def merge_dict(c, a, b):
    out = {}
    m = bnot(c)
    for k, (g, v) in a.items():
        if k in b:
            h, w = b[k]
            out[k] = (ite(c, g, h), vite(c, v, w))
        else:
            out[k] = (band(g, c), v)
    for k, (g, v) in b.items():
        if k not in a:
            out[k] = (band(g, m), v)
    return {k: gv for k, gv in out.items() if gv[0] is not FALSE}


# memo cells: what is not there has not been computed
ABSENT = {"cp": FALSE, "lru": GL(())}
MEMO = []


class State:
    __slots__ = ("h", "pc")

    def __init__(self, h=None, pc=TRUE):
        self.h = {} if h is None else h
        self.pc = pc

    def copy(self):
        return State(dict(self.h), self.pc)

    def assign(self, o):
        self.h, self.pc = o.h, o.pc


PRES = {"a": "pa", "v": "pv"}       # kinds of cells that may be set on some paths only, and the condition they are set under
OWNER = {"a": "a0", "v": "v0"}


def present(h, k):
    """condition under which the attribute or local k is set"""
    if h.get(k, UNDEF) is UNDEF:
        return FALSE
    return h.get((PRES[k[0]],) + k[1:], TRUE)


def merge_states(c, s1, s2):
    """state equal to s1 when c holds and s2 otherwise"""
    h1, h2 = s1.h, s2.h
    out = dict(h1)
    part = set()
    for k, v2 in h2.items():
        v1 = h1.get(k, UNDEF)
        if v1 is not v2:
            k0 = k[0]
            if k0 in PRES:
                if v1 is UNDEF or v2 is UNDEF:
                    part.add(k)
            elif k0 == "pa" or k0 == "pv":
                part.add((k0[1],) + k[1:])
                continue
            elif v1 is UNDEF and k0 in ABSENT:
                v1 = ABSENT[k0]
            out[k] = vite(c, v1, v2)
    if len(out) != len(h2):
        for k in h1.keys() - h2.keys():
            k0 = k[0]
            if k0 in PRES:
                part.add(k)
            elif k0 == "pa" or k0 == "pv":
                part.add((k0[1],) + k[1:])
            elif MEMO and k0 in ABSENT:
                out[k] = vite(c, h1[k], ABSENT[k0])
    for k in part:
        o = (OWNER[k[0]], k[1])
        if o in h1 and o in h2:
            g = ite(c, present(h1, k), present(h2, k))
            pk = (PRES[k[0]],) + k[1:]
            if g is TRUE:
                out.pop(pk, None)
            else:
                out[pk] = g
    return State(out, bor(s1.pc, s2.pc))


class Frame:
    def __init__(self, fid, qual, mod, func=None):
        self.fid, self.qual, self.mod, self.func = fid, qual, mod, func
        self.returns = []
        self.sinks = []      # stack of lists receiving raised (pc, exc, state)
        self.loops = []      # stack of (breaks, continues)
        self.globals_ = set()
        self.nonlocals = set()
        self.yields = None
        self.self_val = None
        self.cls = None
        self.closure = ()
        self.locals_ = None


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.loaded = False


class Interp:
    def __init__(self, root, package="run_time_assurance"):
        self.root, self.package = root, package
        self.mods = {}
        self.ids = itertools.count(1)
        self.state = State()
        self.tracing = []   # active Trace records
        self.replaying = []  # active replay Trace records
        self.touched = {}   # (file, qual) -> count
        self.calls = 0
        self.site = {}      # term -> (file, line, qual)
        self.notes = []     # bounds reached, unsupported constructs
        self.stack = []
        self.builtins = {}
        self.gdepth = 0
        self.kobj = {}      # dict keys that are no scalars
        self.cur_frame = None
        from . import ext
        self.ext = ext.Ext(self)

    # -------------------------------------------------------------- heap
    def new_id(self):
        return next(self.ids)

    def rd(self, st, key, default=UNDEF):
        if self.replaying and key[0] != "jit":
            for r in reversed(self.replaying):
                if key in r.writes:
                    break
                if key in r.reads:
                    return r.reads[key]
        v = st.h.get(key, default)
        if self.tracing and key[0] != "jit":
            i = key[1]
            for t in self.tracing:
                if (not isinstance(i, int) or i <= t.wm) and key not in t.reads and key not in t.writes:
                    t.reads[key] = v
        return v

    def wr(self, st, key, v):
        if self.replaying and key[0] != "jit":
            i = key[1]
            for r in self.replaying:
                if not isinstance(i, int) or i <= r.wm:
                    return      # a cached jit call performs no side effects
        if self.tracing and key[0] != "jit":
            for t in self.tracing:
                t.writes.add(key)
        st.h[key] = v
        if key[0] in PRES:
            st.h.pop((PRES[key[0]],) + key[1:], None)

    def new_list(self, st, entries=()):
        i = self.new_id()
        st.h[("L", i)] = GL([(TRUE, v) for v in entries])
        return ListRef(i)

    def new_glist(self, st, e):
        i = self.new_id()
        st.h[("L", i)] = GL(e)
        return ListRef(i)

    def new_dict(self, st, d=None):
        i = self.new_id()
        st.h[("D", i)] = dict(d or {})
        return DictRef(i)

    def new_arr(self, st, t):
        if isinstance(t, Term) and t.op != "seq" and not arr.varshape(t) and t.op != "opq":
            return t
        i = self.new_id()
        st.h[("A", i)] = t
        return ArrRef(i)

    def new_iter(self, st, entries):
        i = self.new_id()
        st.h[("I", i)] = GL(entries)
        return IterRef(i)

    def new_inf(self, st, nth):
        i = self.new_id()
        st.h[("I", i)] = ZERO
        return InfIter(i, nth)

    def peek(self, v, st):
        return self.rd(st, ("I", v.id)).e

    def inst(self, v, st):
        return [k for k, x in st.h.items() if k[0] == "a" and k[1] == v.obj.id and x is not UNDEF]

    def take(self, v, n, st):
        """n elements of an unbounded iterator"""
        k0 = vn.cint(self.rd(st, ("I", v.id)))
        if k0 is None:
            raise Unsupported("iterator position")
        if isinstance(v, MapIter):
            out = []
            for j in range(n):
                out.append((TRUE, v.fn(k0 + j, [self.take(x, 1, st)[0][1] for x in v.src], st)))
                self.wr(st, ("I", v.id), num(k0 + j + 1))
            return tuple(out)
        if isinstance(v, GenIter):
            return tuple((TRUE, self.resume(v, k0 + j, st)) for j in range(n))
        self.wr(st, ("I", v.id), num(k0 + n))
        return tuple((TRUE, v.nth(k)) for k in range(k0, k0 + n))

    def resume(self, v, k, st):
        """the next element of an endless generator, computed on the present state"""
        g = v.core
        if k != g.done:
            raise Unsupported("generator advanced on another path")
        saved, st.pc = st.pc, TRUE
        g.st.assign(st)
        if g.thread is None:
            def body():
                g.turn.acquire()
                try:
                    self.exec_block(g.f.node.body, g.nf, g.st)
                    g.err = Dead()
                except BaseException as e:      # handed to the consumer
                    g.err = e
                g.back.release()

            def at_yield(x, s):
                if s is not g.st:
                    g.err = Unsupported("conditional yield of an endless generator")
                g.val = x
                g.back.release()
                g.turn.acquire()
                if g.dropped:
                    raise SystemExit
                return NONE
            g.nf.on_yield = at_yield
            old = threading.stack_size(8 << 20)
            g.thread = threading.Thread(target=body, daemon=True)
            g.thread.start()
            threading.stack_size(old)
        mine = self.stack
        self.stack = list(mine) + [g.f.qual]
        g.turn.release()
        g.back.acquire()
        self.stack = mine
        st.assign(g.st)
        g.st.assign(State())
        for pc, exc, s2 in g.nf.__dict__.pop("raised", []):
            s2.pc = band(saved, pc)
            if s2.pc is not FALSE:
                self.rethrow(g.fr, s2.pc, exc, s2)
        st.pc = band(saved, st.pc)
        if g.err is not None:
            g.thread = None
            raise g.err
        g.done += 1
        self.wr(st, ("I", v.id), num(g.done))
        x, g.val = g.val, None
        return x

    def new_map(self, st, src, fn):
        m = MapIter(self.new_id(), None)
        m.src, m.fn = list(src), fn
        st.h[("I", m.id)] = ZERO
        return m

    def new_gen(self, f, nf, fr, st):
        v = GenIter(self.new_id(), None)
        st.h[("I", v.id)] = ZERO
        g = v.core = GenCore()
        g.f, g.nf, g.fr, g.st, g.done, g.thread, g.err, g.dropped = f, nf, fr, State(), 0, None, None, False
        g.turn, g.back = threading.Semaphore(0), threading.Semaphore(0)
        nf.captured = True
        return v

    def settle(self, v, st):
        """an argument that a library function may walk more than once"""
        if isinstance(v, IterRef):
            return self.new_glist(st, self.iterate(v, None, st))
        return v

    def new_obj(self, st, cls):
        o = Obj(self.new_id(), cls)
        st.h[("a0", o.id)] = TRUE
        return o

    def glist(self, st, ref):
        return self.rd(st, ("L", ref.id)).e

    def ddict(self, st, ref):
        return self.rd(st, ("D", ref.id))

    # -------------------------------------------------------------- modules
    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name.startswith("spec_"):
            from .client import SPECS
            path = os.path.join(SPECS, name[5:] + ".py")
            if not os.path.isfile(path):
                raise AnalysisError("spec module not found: " + name)
            with open(path, encoding="utf-8") as f:
                return self.load_source(name, f.read(), path)
        rel = name.replace(".", "/")
        for p in (rel + ".py", rel + "/__init__.py"):
            path = os.path.join(self.root, p)
            if os.path.isfile(path):
                break
        else:
            raise AnalysisError("module not found: " + name)
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read(), path)
        m = Module(name, path, tree)
        m.is_pkg = path.endswith("__init__.py")
        self.mods[name] = m
        fr = Frame(("mod", name), "<module>", m)
        self.exec_block(tree.body, fr, self.state)
        m.loaded = True
        return m

    def load_source(self, name, text, path):
        tree = ast.parse(text, path)
        m = Module(name, path, tree)
        m.is_pkg = False
        self.mods[name] = m
        fr = Frame(("mod", name), "<module>", m)
        self.exec_block(tree.body, fr, self.state)
        m.loaded = True
        return m

    def is_repo(self, name):
        return name == self.package or name.startswith(self.package + ".") or name.startswith("spec_")

    def module_value(self, name):
        if self.is_repo(name):
            self.load(name)
            return ModVal(name)
        return ExtVal(name)

    def mod_attr(self, st, mod, attr):
        m = self.load(mod)
        v = st.h.get(("g", mod, attr), UNDEF)
        if v is UNDEF:
            v = self.state.h.get(("g", mod, attr), UNDEF)
        if v is UNDEF:
            try:
                return self.module_value(mod + "." + attr)
            except AnalysisError:
                return UNDEF
        return v

    # -------------------------------------------------------------- names
    def lookup(self, name, fr, st):
        if name not in fr.globals_ and not (isinstance(fr.fid, tuple)):
            v = self.rd(st, ("v", fr.fid, name))
            if v is not UNDEF:
                if ("pv", fr.fid, name) in st.h:
                    self.fail_if(bnot(self.rd(st, ("pv", fr.fid, name), TRUE)), "UnboundLocalError", name, fr, st)
                return v
            for fid in fr.closure:
                v = self.rd(st, ("v", fid, name))
                if v is not UNDEF:
                    if ("pv", fid, name) in st.h:
                        self.fail_if(bnot(self.rd(st, ("pv", fid, name), TRUE)), "NameError", name, fr, st)
                    return v
        v = st.h.get(("g", fr.mod.name, name), UNDEF)
        if v is not UNDEF:
            return v
        v = self.state.h.get(("g", fr.mod.name, name), UNDEF)
        if v is not UNDEF:
            return v
        b = self.ext.builtin(name)
        if b is not None:
            return b
        if fr.mod.path.startswith(self.root) and not hasattr(builtins, name) and not self.has_star(fr.mod):
            self.raise_exc(ExcVal("NameError", (string(name),)), fr, st, TRUE)
            raise Dead()
        return self.unknown("undefined name " + name)

    def has_star(self, mod):
        if not hasattr(mod, "star"):
            mod.star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(mod.tree))
        return mod.star

    def bind(self, name, v, fr, st):
        if isinstance(fr.fid, tuple) or name in fr.globals_:
            st.h[("g", fr.mod.name, name)] = v
        elif name in fr.nonlocals:
            for fid in fr.closure:
                if ("v", fid, name) in st.h:
                    self.wr(st, ("v", fid, name), v)
                    return
        else:
            self.wr(st, ("v", fr.fid, name), v)

    def unknown(self, reason, *args):
        if len(self.notes) < 200:
            self.notes.append(reason + self.where())
        return opq(reason)

    def where(self):
        if self.stack:
            return f" [{self.stack[-1]}]"
        return ""

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, fr, st):
        for s in stmts:
            if not self.exec_stmt(s, fr, st):
                return False
        return True

    def exec_stmt(self, s, fr, st):
        try:
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                raise Unsupported("statement " + type(s).__name__)
            r = m(s, fr, st)
            return True if r is None else r
        except Dead:
            return False
        except ShapeError as e:
            self.raise_exc(ExcVal(getattr(e, "kind", "ValueError"), (string(f"shape: {e}"),), key="shape"), fr, st, TRUE)
            return False

    def s_Expr(self, s, fr, st):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr, st)

    def s_Pass(self, s, fr, st):
        return

    def s_Import(self, s, fr, st):
        for a in s.names:
            if a.asname:
                self.bind(a.asname, self.module_value(a.name), fr, st)
            else:
                top = a.name.split(".")[0]
                self.module_value(a.name)
                self.bind(top, ModVal(top) if self.is_repo(top) else ExtVal(top), fr, st)

    def s_ImportFrom(self, s, fr, st):
        mod = s.module or ""
        if s.level:
            base = fr.mod.name.split(".")
            if not fr.mod.is_pkg:
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        if mod == "__future__":
            return
        for a in s.names:
            if self.is_repo(mod):
                if a.name == "*":
                    m = self.load(mod)
                    for k, v in list(self.state.h.items()):
                        if k[0] == "g" and k[1] == mod and not k[2].startswith("_"):
                            self.bind(k[2], v, fr, st)
                    continue
                v = self.mod_attr(st, mod, a.name)
                if v is UNDEF:
                    v = self.unknown(f"import {a.name} from {mod}")
            else:
                v = self.ext.attr_path(mod + "." + a.name)
            self.bind(a.asname or a.name, v, fr, st)

    def s_FunctionDef(self, s, fr, st):
        f = self.make_func(s, fr, st)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, fr, st)
        self.bind(s.name, f, fr, st)

    def make_func(self, s, fr, st, qual=None):
        a = s.args
        defaults = [self.ev(d, fr, st) for d in a.defaults]
        kwd = {k.arg: self.ev(d, fr, st) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        closure = () if isinstance(fr.fid, tuple) else (fr.fid,) + tuple(fr.closure)
        name = getattr(s, "name", "<lambda>")
        q = qual or (name if isinstance(fr.fid, tuple) else fr.qual + "." + name)
        q_ = fr
        while q_ is not None and not isinstance(q_.fid, tuple):
            q_.captured = True
            q_ = getattr(q_, "outer", None)
        return FuncVal(s, fr.mod, closure, defaults, kwd, q, cls=fr.cls)

    def decorate(self, d, f, fr, st):
        if isinstance(d, ast.Name) and d.id == "property":
            return PropertyVal(f)
        if isinstance(d, ast.Name) and d.id == "staticmethod":
            return StaticM(f)
        if isinstance(d, ast.Name) and d.id == "classmethod":
            return ClassM(f)
        if isinstance(d, ast.Attribute) and d.attr == "setter":
            p = self.ev(d.value, fr, st)
            if isinstance(p, PropertyVal):
                return PropertyVal(p.get, f)
        if isinstance(d, ast.Attribute) and d.attr in ("getter", "deleter"):
            return self.ev(d.value, fr, st)
        dv = self.ev(d, fr, st)
        if isinstance(dv, ExtVal) and dv.path in ("abc.abstractmethod", "typing.overload", "typing.final"):
            return f
        if isinstance(dv, ExtVal) and dv.path in ("functools.lru_cache", "functools.cache"):
            return LruFn(self.new_id(), f)
        if isinstance(dv, ExtVal) and dv.path in ("functools.cached_property",):
            return CachedProp(f)
        if isinstance(dv, ExtVal) and dv.path in ("abc.abstractproperty",):
            return PropertyVal(f)
        return self.call(dv, [f], {}, fr, st)

    def s_ClassDef(self, s, fr, st):
        bases = []
        for b in s.bases:
            v = self.ev(b, fr, st)
            if isinstance(v, (ClassVal, ExtVal)):
                bases.append(v)
        if s.keywords:
            pass
        cls = ClassVal(s.name, fr.mod, s, [b for b in bases if not (isinstance(b, ExtVal) and b.path in ("object",))])
        cf = None
        for x in s.body:
            if isinstance(x, ast.FunctionDef) and self.plain_def(x, cls):
                f = self.make_func(x, fr, st, qual=f"{s.name}.{x.name}")
                f.cls = cls
                for d in reversed(x.decorator_list):
                    f = self.decorate_in_class(d, f, cls, fr, st)
                cls.attrs[x.name] = f
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is None:
                cls.annotations.append((x.target.id, UNDEF))
            elif isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                pass
            else:
                # any other statement runs in a scope of its own, which sees the attributes bound so far
                cf = cf or self.sub_frame(fr)
                for k, v in cls.attrs.items():
                    st.h[("v", cf.fid, k)] = v
                self.exec_stmt(x, cf, st)
                for k, v in list(st.h.items()):
                    if k[0] == "v" and k[1] == cf.fid and cls.attrs.get(k[2]) is not v:
                        if v is UNDEF:
                            cls.attrs.pop(k[2], None)
                            continue
                        f = v
                        while isinstance(f, (StaticM, ClassM, LruFn, CachedProp)):
                            f = f.f
                        for g in ((f.get, f.set) if isinstance(f, PropertyVal) else (f,)):
                            if isinstance(g, FuncVal) and g.cls is None and not isinstance(g.node, ast.Lambda) and cf.fid in g.closure:
                                g.cls, g.closure = cls, tuple(i for i in g.closure if i != cf.fid)
                                g.qual = f"{s.name}.{g.node.name}"
                        cls.attrs[k[2]] = v
                for k in list(cls.attrs):
                    if ("v", cf.fid, k) not in st.h:
                        del cls.attrs[k]
                if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                    cls.annotations.append((x.target.id, cls.attrs.get(x.target.id, UNDEF)))
        v = cls
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr, st)
            if isinstance(dv, ExtVal) and "dataclass" in dv.path:
                cls.attrs["__dataclass__"] = TRUE
            elif isinstance(dv, ExtObj) and dv.path == "dataclass":
                cls.attrs["__dataclass__"] = TRUE
                if dv.kw.get("frozen", FALSE) is TRUE:
                    cls.attrs["__frozen__"] = TRUE
                if dv.kw.get("eq", TRUE) is FALSE:
                    cls.attrs["__dc_eq__"] = FALSE
            elif isinstance(dv, ExtVal) and dv.path in ("functools.total_ordering", "typing.final", "typing.runtime_checkable", "abc.ABC", "enum.unique"):
                pass
            else:
                v = self.call(dv, [v], {}, fr, st)
        if any(isinstance(b, ExtVal) and b.path.split(".")[-1] == "Enum" for b in cls.mro):
            for k, x in list(cls.attrs.items()):
                if not k.startswith("__") and not isinstance(x, (FuncVal, PropertyVal, StaticM, ClassM)):
                    o = self.new_obj(st, cls)
                    st.h[("a", o.id, "value")] = x
                    st.h[("a", o.id, "name")] = string(k)
                    cls.attrs[k] = o
        self.bind(s.name, v, fr, st)

    def plain_def(self, x, cls):
        """a method whose defaults and decorators use no name of the class body (x.setter apart)"""
        for d in x.decorator_list:
            if isinstance(d, ast.Attribute) and d.attr == "setter":
                continue
            if any(isinstance(n, ast.Name) and n.id in cls.attrs for n in ast.walk(d)):
                return False
        return not any(isinstance(n, ast.Name) and n.id in cls.attrs for d in x.args.defaults + x.args.kw_defaults if d is not None for n in ast.walk(d))

    def decorate_in_class(self, d, f, cls, fr, st):
        if isinstance(d, ast.Attribute) and d.attr == "setter" and isinstance(d.value, ast.Name):
            p = cls.attrs.get(d.value.id)
            if isinstance(p, PropertyVal):
                return PropertyVal(p.get, f)
        if isinstance(f, PropertyVal):
            return f
        return self.decorate(d, f, fr, st)

    def s_Return(self, s, fr, st):
        v = self.ev(s.value, fr, st) if s.value is not None else NONE
        fr.returns.append((st.pc, v, st.copy()))
        return False

    def s_Assign(self, s, fr, st):
        v = self.ev(s.value, fr, st)
        for t in s.targets:
            self.assign(t, v, fr, st)

    def s_AnnAssign(self, s, fr, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr, st), fr, st)

    def s_AugAssign(self, s, fr, st):
        t = s.target
        load = ast.copy_location(type(t)(**{f: getattr(t, f) for f in t._fields if f != "ctx"}, ctx=ast.Load()), t)
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr, st)
            idx = self.ev_index(t.slice, fr, st)
            old = self.getitem(base, idx, fr, st)
            r = self.ev(s.value, fr, st)
            v = self.inplace(s.op, old, r, fr, st)
            self.setitem(base, idx, v, fr, st)
            return
        old = self.ev(load, fr, st)
        r = self.ev(s.value, fr, st)
        v = self.inplace(s.op, old, r, fr, st)
        self.assign(t, v, fr, st)

    def inplace(self, op, old, r, fr, st):
        if isinstance(old, ArrRef):
            new = self.binop(op, self.aval(old, st), r, fr, st)
            self.aset(old, (), self.term(new, st), st)
            return old
        if isinstance(old, Cond) and isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            def go(v, c):
                if isinstance(v, Cond):
                    return vite(v.c, go(v.a, band(c, v.c)), go(v.b, band(c, bnot(v.c))))
                if isinstance(v, ArrRef):
                    cur = self.aval(v, st)
                    new = self.term(self.binop(op, cur, r, fr, st), st)
                    self.aset(v, (), ite(c, new, cur), st)
                    return v
                return self.binop(op, v, r, fr, st)
            return go(old, TRUE)
        if isinstance(old, ListRef) and isinstance(op, ast.Add):
            self.wr(st, ("L", old.id), GL(self.glist(st, old) + tuple(self.iterate(r, fr, st))))
            return old
        if isinstance(old, DictRef) and isinstance(op, ast.BitOr):
            self.dict_update(old, r, fr, st)
            return old
        return self.binop(op, old, r, fr, st)

    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, fr, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr, st), t.attr, v, fr, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr, st)
            self.setitem(base, self.ev_index(t.slice, fr, st), v, fr, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts, fr, st)
            for x, y in zip(t.elts, vals):
                if isinstance(x, ast.Starred):
                    x = x.value
                self.assign(x, y, fr, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, elts, fr, st):
        n = len(elts)
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Cond):
            a, b = self.unpack(v.a, elts, fr, st), self.unpack(v.b, elts, fr, st)
            return [vite(v.c, x, y) for x, y in zip(a, b)]
        if isinstance(v, Term) and v.op == "opq":
            return [opq("unpack", v)] * n
        e = self.iterate(v, fr, st)
        if any(g is not TRUE for g, _ in e):
            return [self.unknown("unpack guarded")] * n
        vals = [x for _, x in e]
        if star:
            k = star[0]
            m = len(vals) - (n - 1)
            if m < 0:
                raise ShapeError("unpack")
            return vals[:k] + [self.new_list(st, vals[k:k + m])] + vals[k + m:]
        if len(vals) != n:
            raise ShapeError(f"unpack {len(vals)} into {n}")
        return vals

    def s_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value, fr, st)
                idx = self.ev_index(t.slice, fr, st)
                self.delitem(base, idx, fr, st)
            elif isinstance(t, ast.Name):
                st.h.pop(("v", fr.fid, t.id), None)
                st.h.pop(("pv", fr.fid, t.id), None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr, st)
                if isinstance(o, Obj):
                    if st.h.get(("a", o.id, t.attr), UNDEF) is UNDEF:
                        self.fail("AttributeError", t.attr, fr, st)
                    if ("pa", o.id, t.attr) in st.h:
                        self.fail_if(bnot(st.h[("pa", o.id, t.attr)]), "AttributeError", t.attr, fr, st)
                    self.wr(st, ("a", o.id, t.attr), UNDEF)
                    if isinstance(self.find(o.cls, t.attr), CachedProp):
                        self.wr(st, ("cp", o.id, t.attr), FALSE)

    def delitem(self, base, idx, fr, st):
        if isinstance(base, DictRef):
            k = self.dkey(idx, st)
            d = dict(self.ddict(st, base))
            has = self.dict_has(d, k)
            if has is FALSE:
                self.fail("KeyError", "del", fr, st)
            self.fail_if(bnot(has), "KeyError", "del", fr, st)
            self.dict_del(d, k)
            self.wr(st, ("D", base.id), d)
        elif isinstance(base, ListRef):
            e = list(self.glist(st, base))
            if any(g is not TRUE for g, _ in e):
                raise Unsupported("del on conditional list")
            if isinstance(idx, SliceVal):
                cs = [None if x is NONE else vn.cint(self.term(x, st)) for x in (idx.lo, idx.hi, idx.st)]
                if any(c is None and x is not NONE for c, x in zip(cs, (idx.lo, idx.hi, idx.st))):
                    raise Unsupported("del slice")
                del e[slice(*cs)]
            else:
                k = vn.cint(self.term(idx, st))
                if k is None:
                    raise Unsupported("del at symbolic index")
                if not -len(e) <= k < len(e):
                    self.fail("IndexError", "del", fr, st)
                del e[k]
            self.wr(st, ("L", base.id), GL(e))
        elif isinstance(base, Obj) and self.find(base.cls, "__delitem__") is not None:
            self.call(Bound(base, self.find(base.cls, "__delitem__")), [idx], {}, fr, st)
        else:
            raise Unsupported("del")

    def dict_del(self, d, k):
        """remove key k (present or not)"""
        if k in d:
            del d[k]
            return
        for kk, (g, v) in list(d.items()):
            c = self.same_key(kk, k)
            if c is not FALSE:
                d[kk] = (band(g, bnot(c)), v)
                if d[kk][0] is FALSE:
                    del d[kk]

    def s_Global(self, s, fr, st):
        fr.globals_ |= set(s.names)

    def s_Nonlocal(self, s, fr, st):
        fr.nonlocals |= set(s.names)

    def s_Assert(self, s, fr, st):
        c = self.cond(s.test, fr, st)
        if c is TRUE:
            return
        f = bnot(c)
        if c.taint:
            return
        msg = (self.under(f, lambda q: self.ev(s.msg, fr, q), st),) if s.msg is not None else ()
        self.raise_exc(ExcVal("AssertionError", msg, key=(fr.qual, s.lineno)), fr, st, f)
        st.pc = band(st.pc, c)
        if c is FALSE:
            raise Dead()

    def raise_exc(self, exc, fr, st, guard):
        """record that `exc` is raised from st when guard holds"""
        pc = band(st.pc, guard)
        if pc is FALSE:
            return
        s2 = st.copy()
        s2.pc = pc
        if isinstance(exc, (ExcVal,)) and not hasattr(exc, "where"):
            exc.where = f"{fr.qual} ({os.path.basename(fr.mod.path)})"
        fr.sinks[-1].append((pc, exc, s2)) if fr.sinks else fr.__dict__.setdefault("raised", []).append((pc, exc, s2))

    def fail(self, kind, msg, fr, st):
        self.raise_exc(ExcVal(kind, (string(msg),), key=msg), fr, st, TRUE)
        raise Dead()

    def fail_if(self, c, kind, msg, fr, st):
        """the operation raises when c holds; analysis continues with the rest"""
        c = band(st.pc, c)
        if c is FALSE or c.taint or fr is None:
            return
        self.raise_exc(ExcVal(kind, (string(msg),), key=msg), fr, st, c)
        st.pc = band(st.pc, bnot(c))
        if st.pc is FALSE:
            raise Dead()

    def s_Raise(self, s, fr, st):
        if s.exc is None:
            exc = getattr(fr, "handling", None) or ExcVal("Exception")
        else:
            exc = self.ev(s.exc, fr, st)
            if isinstance(exc, ClassVal):
                exc = self.call(exc, [], {}, fr, st)
            elif isinstance(exc, ExtVal):
                exc = ExcVal(exc.path.split(".")[-1])
        self.raise_exc(exc, fr, st, TRUE)
        return False

    def s_If(self, s, fr, st):
        c = self.cond(s.test, fr, st)
        if c is TRUE:
            return self.exec_block(s.body, fr, st)
        if c is FALSE:
            return self.exec_block(s.orelse, fr, st)
        s2 = st.copy()
        m = bnot(c)
        st.pc, s2.pc = band(st.pc, c), band(s2.pc, m)
        if st.pc is FALSE:
            st.assign(s2)
            return self.exec_block(s.orelse, fr, st)
        if s2.pc is FALSE:
            return self.exec_block(s.body, fr, st)
        a = self.exec_block(s.body, fr, st)
        b = self.exec_block(s.orelse, fr, s2)
        if a and b:
            st.assign(merge_states(c, st, s2))
            return True
        if b:
            st.assign(s2)
        return a or b

    def s_For(self, s, fr, st):
        it = self.ev(s.iter, fr, st)
        lazy = it if isinstance(it, IterRef) else None
        if isinstance(it, InfIter):
            entries = self.endless(it, st)
        else:
            entries = self.iterate(it, fr, st)
        breaks, alive = [], True
        for k, (g, v) in enumerate(entries):
            if g is FALSE:
                continue
            if lazy is not None:
                self.wr(st, ("I", lazy.id), GL(entries[k + 1:]))
            skip = None
            if g is not TRUE:
                skip = st.copy()
                skip.pc = band(st.pc, bnot(g))
                st.pc = band(st.pc, g)
                if st.pc is FALSE:
                    st.assign(skip)
                    continue
            conts = []
            fr.loops.append((breaks, conts))
            try:
                self.assign(s.target, v, fr, st)
                alive = self.exec_block(s.body, fr, st)
            finally:
                fr.loops.pop()
            alive = self.join_conts(conts, alive, st)
            if skip is not None and skip.pc is not FALSE:
                if alive:
                    st.assign(merge_states(g, st, skip))
                else:
                    st.assign(skip)
                    alive = True
            if not alive:
                break
        if alive and s.orelse:
            alive = self.exec_block(s.orelse, fr, st)
        return self.join_conts(breaks, alive, st)

    def endless(self, it, st):
        for k in range(UNROLL_CONCRETE):
            yield self.take(it, 1, st)[0]
        raise Unsupported("endless loop")

    def join_conts(self, conts, alive, st):
        for pc, s2 in conts:
            if alive:
                st.assign(merge_states(pc, s2, st))
            else:
                st.assign(s2)
                alive = True
        return alive

    def s_While(self, s, fr, st):
        breaks, exits, alive, k = [], [], True, 0
        total = 0
        while True:
            try:
                c = self.cond(s.test, fr, st)
            except Dead:
                alive = False
                break
            if c is FALSE:
                exits.append((st.pc, st.copy()))
                alive = False
                break
            if c is not TRUE:
                if c.taint:
                    self.notes.append("while on unknown condition" + self.where())
                ex = st.copy()
                ex.pc = band(st.pc, bnot(c))
                if ex.pc is not FALSE:
                    exits.append((ex.pc, ex))
                st.pc = band(st.pc, c)
                if st.pc is FALSE:
                    alive = False
                    break
                k += 1
                if k > UNROLL_SYMBOLIC:
                    self.notes.append(f"loop bound {UNROLL_SYMBOLIC} at {fr.qual}:{s.lineno}")
                    alive = False
                    break
            total += 1
            if total > UNROLL_CONCRETE:
                raise Unsupported("long while loop")
            conts = []
            fr.loops.append((breaks, conts))
            try:
                alive = self.exec_block(s.body, fr, st)
            finally:
                fr.loops.pop()
            alive = self.join_conts(conts, alive, st)
            if not alive:
                break
        if not exits and not breaks:
            return False
        alive = False
        for pc, s2 in reversed(exits):
            if alive:
                st.assign(merge_states(pc, s2, st))
            else:
                st.assign(s2)
                alive = True
        if alive and s.orelse:
            alive = self.exec_block(s.orelse, fr, st)
        return self.join_conts(breaks, alive, st)

    def s_Break(self, s, fr, st):
        fr.loops[-1][0].append((st.pc, st.copy()))
        return False

    def s_Continue(self, s, fr, st):
        fr.loops[-1][1].append((st.pc, st.copy()))
        return False

    def s_With(self, s, fr, st):
        return self.with_items(list(s.items), s.body, fr, st)

    s_AsyncWith = s_With

    def with_items(self, items, body, fr, st):
        if not items:
            return self.exec_block(body, fr, st)
        it = items[0]
        m = self.ev(it.context_expr, fr, st)

        def inner(v, s):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr, s)
            return self.with_items(items[1:], body, fr, s)
        return self.with_one(m, inner, fr, st)

    def region(self, inner, fr, st):
        """run inner; (normal completion?, pending jumps out of the region, exceptions leaving it).  Jumps are
        folded into st (they will leave the region after its exit code), each remembered with its condition."""
        n_ret = len(fr.returns)
        nb = [(len(b), len(c)) for b, c in fr.loops]
        sink = []
        fr.sinks.append(sink)
        try:
            try:
                alive = inner(st)
            except Dead:
                alive = False
        finally:
            fr.sinks.pop()
        alive = True if alive is None else alive
        pend = [(pc, ("ret", v), s2) for pc, v, s2 in fr.returns[n_ret:]]
        del fr.returns[n_ret:]
        for k, ((b, c), (x, y)) in enumerate(zip(fr.loops, nb)):
            for j, (lst, z) in enumerate(((b, x), (c, y))):
                pend += [(pc, ("loop", k, j), s2) for pc, s2 in lst[z:]]
                del lst[z:]
        normal = st.pc if alive else FALSE
        for pc, _, s2 in pend:
            if alive:
                st.assign(merge_states(pc, s2, st))
            else:
                st.assign(s2)
                alive = True
        return alive, normal, [(pc, k) for pc, k, _ in pend], sink

    def leave(self, alive, normal, pend, fr, st):
        """after the exit code: take the pending jumps, continue with the rest"""
        if not alive or not pend:
            return alive
        for pc, k in pend:
            s2 = st.copy()
            s2.pc = band(st.pc, pc)
            if s2.pc is FALSE:
                continue
            if k[0] == "ret":
                fr.returns.append((s2.pc, k[1], s2))
            else:
                fr.loops[k[1]][k[2]].append((s2.pc, s2))
        st.pc = band(st.pc, bnot(bor(*[pc for pc, _ in pend])))
        return st.pc is not FALSE

    def with_one(self, m, inner, fr, st):
        if isinstance(m, CtxGen):
            return self.with_gen(m, inner, fr, st)
        if isinstance(m, ExtObj) and m.path == "suppress":
            alive, normal, pend, exc = self.region(lambda s: inner(NONE, s), fr, st)
            for pc, e, s2 in exc:
                if any(self.exc_match(e, t, s2) for t in m.args):
                    if alive:
                        st.assign(merge_states(pc, s2, st))
                    else:
                        st.assign(s2)
                        alive = True
                else:
                    self.rethrow(fr, pc, e, s2)
            return self.leave(alive, normal, pend, fr, st)
        if isinstance(m, ExtObj) and m.path == "nullcontext":
            return inner(m.args[0], st)
        if isinstance(m, ExtObj) and m.path == "ExitStack":
            alive, normal, pend, exc = self.region(lambda s: inner(m, s), fr, st)

            def unwind(s):
                cbs = self.glist(s, m.args[0])
                if any(g is not TRUE for g, _ in cbs):
                    raise Unsupported("conditional exit callback")
                for _, cb in reversed(cbs):
                    self.call(cb.vals[0], list(cb.vals[1].vals), {}, fr, s)
            for pc, e, s2 in exc:
                try:
                    unwind(s2)
                    self.rethrow(fr, pc, e, s2)
                except Dead:
                    pass
            if alive:
                try:
                    unwind(st)
                except Dead:
                    alive = False
            return self.leave(alive, normal, pend, fr, st)
        if isinstance(m, Obj):
            en, ex = self.find(m.cls, "__enter__"), self.find(m.cls, "__exit__")
            if en is not None and ex is not None:
                v = self.call(Bound(m, en), [], {}, fr, st)
                alive, normal, pend, exc = self.region(lambda s: inner(v, s), fr, st)
                for pc, e, s2 in exc:
                    try:
                        t = e.cls if isinstance(e, Obj) else ExtVal(getattr(e, "name", "Exception"))
                        sw = self.truthy(self.call(Bound(m, ex), [t, e, ExtObj("traceback", (), {}, self.new_id())], {}, fr, s2), fr, s2)
                    except Dead:
                        continue
                    if sw is not TRUE:
                        s3 = s2.copy()
                        s3.pc = band(s2.pc, bnot(sw))
                        if s3.pc is not FALSE:
                            self.rethrow(fr, s3.pc, e, s3)
                    s2.pc = band(s2.pc, sw)
                    if s2.pc is not FALSE:
                        if alive:
                            st.assign(merge_states(s2.pc, s2, st))
                        else:
                            st.assign(s2)
                            alive = True
                if alive:
                    try:
                        npc = bor(normal, *[pc for pc, _ in pend])
                        if npc is not FALSE:
                            self.under(npc if exc else TRUE, lambda s: self.call(Bound(m, ex), [NONE, NONE, NONE], {}, fr, s), st)
                    except Dead:
                        alive = False
                return self.leave(alive, normal, pend, fr, st)
        if isinstance(m, Cond):
            s2 = st.copy()
            st.pc, s2.pc = band(st.pc, m.c), band(s2.pc, bnot(m.c))
            a, b = self.with_one(m.a, inner, fr, st), self.with_one(m.b, inner, fr, s2)
            if a and b:
                st.assign(merge_states(m.c, st, s2))
                return True
            if b:
                st.assign(s2)
            return a or b
        if isinstance(m, (ExtObj, ExtVal)) and (m.path == "file" or m.path in PASSIVE_CTX):
            return inner(m, st)
        if m is NONE:
            self.raise_exc(ExcVal("TypeError", (string("not a context manager"),)), fr, st, TRUE)
            raise Dead()
        self.unknown("context manager " + type(m).__name__)
        return inner(m, st)

    def with_gen(self, m, inner, fr, st):
        """@contextmanager: the body of the with statement runs at the yield"""
        f, args, kw = m.f, m.args, m.kw
        while isinstance(f, Bound):
            args, f = [f.obj] + list(args), f.func
        if not isinstance(f, FuncVal):
            self.unknown("context manager function")
            return inner(opq("context"), st)
        nf = Frame(self.new_id(), f.qual, f.mod, f)
        nf.closure, nf.cls = f.closure, f.cls
        self.bind_args(f, args, kw, nf, fr, st)
        res = {}

        def at_yield(v, s):
            alive, normal, pend, exc = self.region(lambda q: inner(v, q), fr, s)
            res["pend"] = res.get("pend", []) + pend
            for pc, e, s2 in exc:
                self.rethrow(nf, pc, e, s2)
            if not alive:
                raise Dead()
            return NONE
        nf.on_yield = at_yield
        self.touched[(f.mod.path, f.qual)] = self.touched.get((f.mod.path, f.qual), 0) + 1
        self.stack.append(f.qual)
        try:
            alive = self.exec_block(f.node.body, nf, st)
        finally:
            self.stack.pop()
        for pc, e, s2 in getattr(nf, "raised", []):
            self.rethrow(fr, pc, e, s2)
        for pc, _, s2 in nf.returns:
            if alive:
                st.assign(merge_states(pc, s2, st))
            else:
                st.assign(s2)
                alive = True
        return self.leave(alive, TRUE, res.get("pend", []), fr, st)

    def s_Try(self, s, fr, st):
        n_ret = len(fr.returns)
        nb = [(len(b), len(c)) for b, c in fr.loops]
        outer = []
        if s.finalbody:
            fr.sinks.append(outer)
        sink = []
        fr.sinks.append(sink)
        try:
            alive = self.exec_block(s.body, fr, st)
        finally:
            fr.sinks.pop()
        if alive and s.orelse:
            alive = self.exec_block(s.orelse, fr, st)
        for pc, exc, s2 in sink:
            handled = False
            for h in s.handlers:
                m = True if h.type is None else self.exc_match(exc, self.ev(h.type, fr, s2), s2)
                if not m:
                    continue
                handled = True
                if h.name:
                    self.bind(h.name, exc, fr, s2)
                old = getattr(fr, "handling", None)
                fr.handling = exc
                ok = self.exec_block(h.body, fr, s2)
                fr.handling = old
                if ok:
                    if alive:
                        st.assign(merge_states(pc, s2, st))
                    else:
                        st.assign(s2)
                        alive = True
                break
            if not handled:
                self.rethrow(fr, pc, exc, s2)
        if s.finalbody:
            fr.sinks.pop()
            rets = fr.returns[n_ret:]
            del fr.returns[n_ret:]
            for pc, v, s2 in rets:
                if self.exec_block(s.finalbody, fr, s2):
                    fr.returns.append((s2.pc, v, s2))
            for (b, c), (x, y) in zip(fr.loops, nb):
                for lst, k in ((b, x), (c, y)):
                    new = lst[k:]
                    del lst[k:]
                    for pc, s2 in new:
                        if self.exec_block(s.finalbody, fr, s2):
                            lst.append((s2.pc, s2))
            for pc, exc, s2 in outer:
                if self.exec_block(s.finalbody, fr, s2):
                    self.rethrow(fr, pc, exc, s2)
            if alive:
                alive = self.exec_block(s.finalbody, fr, st)
        return alive

    def rethrow(self, fr, pc, exc, s2):
        if fr.sinks:
            fr.sinks[-1].append((pc, exc, s2))
        else:
            fr.__dict__.setdefault("raised", []).append((pc, exc, s2))

    s_TryStar = s_Try

    def exc_match(self, exc, typ, st):
        if isinstance(typ, PyTuple):
            return any(self.exc_match(exc, t, st) for t in typ.vals)
        if isinstance(exc, Cond):
            return self.exc_match(exc.a, typ, st) or self.exc_match(exc.b, typ, st)
        if isinstance(exc, Obj):
            if isinstance(typ, ClassVal):
                return typ in exc.cls.mro
            if isinstance(typ, ExtVal):
                name = typ.path.split(".")[-1]
                return any(isinstance(b, ExtVal) and exc_sub(b.path.split(".")[-1], name) for b in exc.cls.mro)
        if isinstance(exc, ExcVal):
            if isinstance(typ, ExtVal):
                return exc_sub(exc.name, typ.path.split(".")[-1])
            if isinstance(typ, ClassVal):
                return exc.name == typ.name
            return False
        return False

    def s_Match(self, s, fr, st):
        v = self.ev(s.subject, fr, st)

        def case(k, s_):
            if k == len(s.cases):
                return True
            c = s.cases[k]
            binds = []
            cond = self.pattern(c.pattern, v, binds, fr, s_)
            for n, x in binds:
                self.bind(n, x, fr, s_)
            if c.guard is not None and cond is not FALSE:
                cond = band(cond, self.under(cond, lambda q: self.cond(c.guard, fr, q), s_))
            if cond is TRUE:
                return self.exec_block(c.body, fr, s_)
            if cond is FALSE:
                return case(k + 1, s_)
            s2 = s_.copy()
            s_.pc, s2.pc = band(s_.pc, cond), band(s2.pc, bnot(cond))
            if s_.pc is FALSE:
                s_.assign(s2)
                return case(k + 1, s_)
            if s2.pc is FALSE:
                return self.exec_block(c.body, fr, s_)
            a = self.exec_block(c.body, fr, s_)
            b = case(k + 1, s2)
            if a and b:
                s_.assign(merge_states(cond, s_, s2))
                return True
            if b:
                s_.assign(s2)
            return a or b
        return case(0, st)

    def pattern(self, p, v, binds, fr, st):
        if isinstance(p, ast.MatchValue):
            return self.truthy(self.equal(v, self.ev(p.value, fr, st), fr, st), fr, st)
        if isinstance(p, ast.MatchSingleton):
            return self.identical(v, {None: NONE, True: TRUE, False: FALSE}[p.value])
        if isinstance(p, ast.MatchOr):
            return bor(*[self.pattern(q, v, binds, fr, st) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.pattern(p.pattern, v, binds, fr, st)
            if p.name is not None:
                binds.append((p.name, v))
            return c
        if isinstance(v, Cond):
            b1, b2 = [], []
            c1, c2 = self.pattern(p, v.a, b1, fr, st), self.pattern(p, v.b, b2, fr, st)
            if [n for n, _ in b1] != [n for n, _ in b2]:
                raise Unsupported("pattern")
            binds += [(n, vite(v.c, x, y)) for (n, x), (_, y) in zip(b1, b2)]
            return ite(v.c, c1, c2)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (PyTuple, ListRef)):
                if isinstance(v, Term) and v.op == "opq":
                    return truth(self.unknown("sequence pattern"))
                binds += [(n, NONE) for n in pattern_names(p)]
                return FALSE
            e = self.iterate(v, fr, st)
            if any(g is not TRUE for g, _ in e):
                raise Unsupported("pattern on conditional list")
            vals = [x for _, x in e]
            stars = [k for k, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if stars and len(vals) >= len(p.patterns) - 1:
                k = stars[0]
                m = len(vals) - len(p.patterns) + 1
                if p.patterns[k].name is not None:
                    binds.append((p.patterns[k].name, self.new_list(st, vals[k:k + m])))
                pairs = list(zip(p.patterns[:k], vals[:k])) + list(zip(p.patterns[k + 1:], vals[k + m:]))
            elif not stars and len(vals) == len(p.patterns):
                pairs = list(zip(p.patterns, vals))
            else:
                binds += [(n, NONE) for n in pattern_names(p)]
                return FALSE
            return band(*[self.pattern(q, x, binds, fr, st) for q, x in pairs]) if pairs else TRUE
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, DictRef) or p.rest is not None:
                if isinstance(v, DictRef):
                    raise Unsupported("mapping pattern")
                binds += [(n, NONE) for n in pattern_names(p)]
                return FALSE
            c = TRUE
            d = self.ddict(st, v)
            for k, q in zip(p.keys, p.patterns):
                kk = self.ev(k, fr, st)
                h = self.dict_has(d, kk)
                c = band(c, h)
                if h is FALSE:
                    binds += [(n, NONE) for n in pattern_names(q)]
                    continue
                c = band(c, self.pattern(q, self.dict_get(d, kk, st), binds, fr, st))
            return c
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, fr, st)
            c = self.ext.isinstance_(v, cls, fr, st)
            if c is FALSE:
                binds += [(n, NONE) for n in pattern_names(p)]
                return FALSE
            if p.patterns:
                if isinstance(cls, ExtVal) and len(p.patterns) == 1:
                    c = band(c, self.pattern(p.patterns[0], v, binds, fr, st))
                else:
                    names = [n for q in reversed(cls.mro) if isinstance(q, ClassVal) for n, _ in q.annotations] if isinstance(cls, ClassVal) else []
                    if len(names) < len(p.patterns):
                        raise Unsupported("positional class pattern")
                    for n, q in zip(names, p.patterns):
                        c = band(c, self.pattern(q, self.getattr(v, n, fr, st), binds, fr, st))
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                c = band(c, self.pattern(q, self.getattr(v, n, fr, st), binds, fr, st))
            return c
        raise Unsupported("pattern " + type(p).__name__)

    # -------------------------------------------------------------- conditions
    def cond(self, node, fr, st):
        return self.truthy(self.ev(node, fr, st), fr, st)

    def truthy(self, v, fr, st):
        if isinstance(v, Term):
            if arr.varshape(v):
                return self.truthy_vs(v)
            return truth(v)
        if isinstance(v, Cond):
            return ite(v.c, self.truthy(v.a, fr, st), self.truthy(v.b, fr, st))
        if isinstance(v, ArrRef):
            return self.truthy(self.aval(v, st), fr, st)
        if isinstance(v, ListRef):
            return bor(*[g for g, _ in self.glist(st, v)])
        if isinstance(v, DictRef):
            return bor(*[g for g, _ in self.ddict(st, v).values()])
        if isinstance(v, GL):
            return bor(*[g for g, _ in v.e])
        if isinstance(v, PyTuple):
            return TRUE if v.vals else FALSE
        if isinstance(v, Range):
            return bnot(vn.eq(self.length(v, fr, st), ZERO))
        if isinstance(v, Obj):
            f = self.find(v.cls, "__bool__")
            if f is not None:
                return self.truthy(self.call(Bound(v, f), [], {}, fr, st), fr, st)
            f = self.find(v.cls, "__len__")
            if f is not None:
                return self.truthy(self.call(Bound(v, f), [], {}, fr, st), fr, st)
            return TRUE
        if isinstance(v, SetRef):
            return bor(*[g for g, _ in self.rd(st, ("L", v.id)).e])
        return TRUE

    def truthy_vs(self, v):
        if v.op == "ite":
            return ite(vn.atom(v.args[0]), self.truthy_vs(v.args[1]), self.truthy_vs(v.args[2]))
        return truth(v)

    # -------------------------------------------------------------- expressions
    def ev(self, n, fr, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.unknown("expression " + type(n).__name__)
        try:
            v = m(n, fr, st)
        except Unsupported as e:
            return self.unknown(f"unsupported: {e} at {fr.qual}:{getattr(n, 'lineno', 0)}")
        if isinstance(v, Term) and v not in self.site and v.op not in ("num", "str", "sym", "none", "bool") and hasattr(n, "lineno"):
            self.site[v] = (fr.mod.path, n.lineno, fr.qual)
        return v

    def e_Constant(self, n, fr, st):
        v = n.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if v is Ellipsis:
            return Ellipsis
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return string(v)
        return self.unknown("constant")

    def e_Name(self, n, fr, st):
        return self.lookup(n.id, fr, st)

    def e_Attribute(self, n, fr, st):
        return self.getattr(self.ev(n.value, fr, st), n.attr, fr, st)

    def e_Tuple(self, n, fr, st):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                for g, v in self.iterate(self.ev(e.value, fr, st), fr, st):
                    if g is not TRUE:
                        raise Unsupported("guarded star")
                    out.append(v)
            else:
                out.append(self.ev(e, fr, st))
        return PyTuple(out)

    def e_List(self, n, fr, st):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, fr, st), fr, st))
            else:
                out.append((TRUE, self.ev(e, fr, st)))
        return self.new_glist(st, out)

    def e_Set(self, n, fr, st):
        return self.ext.call_builtin("set", [PyTuple([self.ev(e, fr, st) for e in n.elts])], {}, fr, st)

    def e_Dict(self, n, fr, st):
        r = self.new_dict(st)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(r, self.ev(v, fr, st), fr, st)
            else:
                kk = self.ev(k, fr, st)
                self.setitem(r, kk, self.ev(v, fr, st), fr, st)
        return r

    def e_JoinedStr(self, n, fr, st):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(string(x.value))
            else:
                v = self.ev(x.value, fr, st)
                if x.conversion == 114 and isinstance(v, Term) and v.op == "str":
                    v = string(repr(v.args[0]))
                parts.append(self.to_str(v, fr, st) if x.format_spec is None else self.fmt_value(v, self.ev(x.format_spec, fr, st), fr, st))
        return self.str_concat(parts)

    def str_concat(self, parts):
        def cat(a, b):
            return _cat(a, b)
        r = string("")
        for p in parts:
            r = cat(r, p)
        return r

    def to_str(self, v, fr, st):
        if isinstance(v, Term):
            if v.op == "str":
                return v
            if v.op == "num" and v.args[0].denominator == 1:
                return string(str(v.args[0]))
            if v.op == "ite":
                return ite(vn.atom(v.args[0]), self.to_str(v.args[1], fr, st), self.to_str(v.args[2], fr, st))
            if v is NONE or v is TRUE or v is FALSE:
                return string({NONE: "None", TRUE: "True", FALSE: "False"}[v])
            if v in vn.STRSYMS or v.op == "fn" and v.args[0] in ("strcat", "strfmt"):
                return v
            t = T("fn", "str", v)
            vn.STRSYMS.add(t)
            return t
        if isinstance(v, Cond):
            return ite(v.c, self.to_str(v.a, fr, st), self.to_str(v.b, fr, st))
        if isinstance(v, Obj):
            for m in ("__str__", "__repr__"):
                f = self.find(v.cls, m)
                if f is not None:
                    return self.term(self.call(Bound(v, f), [], {}, fr, st), st)
            a = st.h.get(("a", v.id, "args"), UNDEF)
            if isinstance(a, PyTuple) and self.ext_base(v.cls) is not None:
                return self.to_str(a.vals[0], fr, st) if len(a.vals) == 1 else string("") if not a.vals else self.to_str(a, fr, st)
        if isinstance(v, ExcVal):
            if len(v.args) == 1:
                return self.to_str(v.args[0], fr, st)
            if not v.args:
                return string("")
        t = T("fn", "str", self.term_or_opq(v, st))
        vn.STRSYMS.add(t)
        return t

    def e_FormattedValue(self, n, fr, st):
        return self.to_str(self.ev(n.value, fr, st), fr, st)

    def e_Lambda(self, n, fr, st):
        return self.make_func(n, fr, st)

    def e_NamedExpr(self, n, fr, st):
        v = self.ev(n.value, fr, st)
        while getattr(fr, "outer", None) is not None:
            fr = fr.outer
        self.assign(n.target, v, fr, st)
        return v

    def e_Starred(self, n, fr, st):
        raise Unsupported("starred")

    def e_Yield(self, n, fr, st):
        v = self.ev(n.value, fr, st) if n.value is not None else NONE
        if getattr(fr, "on_yield", None) is not None:
            return fr.on_yield(v, st)
        key = ("y", fr.fid)
        st.h[key] = GL(st.h.get(key, GL(())).e + ((TRUE, v),))
        return NONE

    def e_YieldFrom(self, n, fr, st):
        key = ("y", fr.fid)
        st.h[key] = GL(st.h.get(key, GL(())).e + tuple(self.iterate(self.ev(n.value, fr, st), fr, st)))
        return NONE

    def fork(self, v, f, st):
        """f of either value of v, each on its own paths"""
        if band(st.pc, v.c) is FALSE:
            return f(v.b, st)
        if band(st.pc, bnot(v.c)) is FALSE:
            return f(v.a, st)
        if type(v.a) is not type(v.b):
            return self.branch(v.c, lambda s: f(v.a, s), lambda s: f(v.b, s), st)
        return vite(v.c, f(v.a, st), f(v.b, st))

    def branch(self, c, f, g, st):
        """evaluate f under c and g under not c, join"""
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return g(st)
        s2 = st.copy()
        st.pc, s2.pc = band(st.pc, c), band(s2.pc, bnot(c))
        if st.pc is FALSE:
            st.assign(s2)
            return g(st)
        if s2.pc is FALSE:
            return f(st)
        d1 = d2 = False
        v1 = v2 = None
        try:
            v1 = f(st)
        except Dead:
            d1 = True
        try:
            v2 = g(s2)
        except Dead:
            d2 = True
        if d1 and d2:
            raise Dead()
        if d1:
            st.assign(s2)
            return v2
        if d2:
            return v1
        st.assign(merge_states(c, st, s2))
        return vite(c, v1, v2)

    def e_IfExp(self, n, fr, st):
        c = self.cond(n.test, fr, st)
        return self.branch(c, lambda s: self.ev(n.body, fr, s), lambda s: self.ev(n.orelse, fr, s), st)

    def e_BoolOp(self, n, fr, st):
        def go(vals, s):
            v = self.ev(vals[0], fr, s)
            if len(vals) == 1:
                return v
            c = self.truthy(v, fr, s)
            if isinstance(n.op, ast.And):
                return self.branch(c, lambda q: go(vals[1:], q), lambda q: v, s)
            return self.branch(c, lambda q: v, lambda q: go(vals[1:], q), s)
        return go(n.values, st)

    def e_UnaryOp(self, n, fr, st):
        v = self.ev(n.operand, fr, st)
        self.cur_frame = fr
        if isinstance(n.op, ast.Not):
            return bnot(self.truthy(v, fr, st))
        if isinstance(v, Cond):
            f = lambda x: self.unary(n.op, x, st)
            return vite(v.c, f(v.a), f(v.b))
        return self.unary(n.op, v, st)

    def unary(self, op, v, st):
        if isinstance(v, Cond):
            return vite(v.c, self.unary(op, v.a, st), self.unary(op, v.b, st))
        if isinstance(v, Obj):
            f = self.find(v.cls, {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(op)])
            if f is not None:
                return self.call(Bound(v, f), [], {}, self.cur_frame or Frame(self.new_id(), "<op>", v.cls.mod), st)
        t = self.term(v, st)
        if isinstance(op, ast.USub):
            r = arr.neg(t)
        elif isinstance(op, ast.UAdd):
            r = t
        elif isinstance(op, ast.Invert):
            r = arr.ew(lambda x: bnot(truth(x)), t)
        return self.new_arr(st, r) if isinstance(v, ArrRef) else r

    def e_BinOp(self, n, fr, st):
        a = self.ev(n.left, fr, st)
        b = self.ev(n.right, fr, st)
        return self.binop(n.op, a, b, fr, st)

    def binop(self, op, a, b, fr, st):
        if isinstance(a, Cond) and not (isinstance(a.a, Term) and isinstance(a.b, Term)):
            return self.fork(a, lambda x, s: self.binop(op, x, b, fr, s), st)
        if isinstance(b, Cond):
            return self.fork(b, lambda x, s: self.binop(op, a, x, fr, s), st)
        if isinstance(a, Obj) or isinstance(b, Obj):
            d = DUNDER.get(type(op))
            f = self.find(a.cls, "__" + d + "__") if d and isinstance(a, Obj) else None
            if f is not None:
                return self.call(Bound(a, f), [b], {}, fr, st)
            f = self.find(b.cls, "__r" + d + "__") if d and isinstance(b, Obj) else None
            if f is not None:
                return self.call(Bound(b, f), [a], {}, fr, st)
        if isinstance(a, SetRef) and isinstance(b, SetRef) and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.ext.set_method(a, {ast.BitOr: "union", ast.BitAnd: "intersection", ast.Sub: "difference", ast.BitXor: "symmetric_difference"}[type(op)],
                                       [b], {}, fr, st)
        if isinstance(op, ast.BitOr) and isinstance(a, (ExtVal, ClassVal, PyTuple)) and (isinstance(b, (ExtVal, ClassVal)) or b is NONE):
            return PyTuple((a.vals if isinstance(a, PyTuple) else (a,)) + (b,))
        if isinstance(op, ast.Add):
            if isinstance(a, ListRef) and isinstance(b, ListRef):
                return self.new_glist(st, self.glist(st, a) + self.glist(st, b))
            if isinstance(a, PyTuple) and isinstance(b, PyTuple):
                return PyTuple(a.vals + b.vals)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (ListRef, PyTuple)) and isinstance(y, Term):
                    return self.repeat(x, y, st)
        if isinstance(op, ast.BitOr) and isinstance(a, DictRef) and isinstance(b, DictRef):
            r = self.new_dict(st, self.ddict(st, a))
            self.dict_update(r, b, fr, st)
            return r
        if isinstance(op, ast.Mod) and isinstance(a, Term) and a.op == "str":
            return self.percent(a.args[0], b, fr, st)
        if isinstance(a, (Obj, ExtObj, ExtVal, FuncVal, ClassVal)) or isinstance(b, (Obj, ExtObj, ExtVal, FuncVal, ClassVal)):
            return self.unknown("operator on object")
        x, y = self.term(a, st), self.term(b, st)
        if isinstance(op, ast.Add) and (self.is_str(x) or self.is_str(y)):
            return _cat(x, y)
        npy = isinstance(a, ArrRef) or isinstance(b, ArrRef)
        r = self.arith(op, x, y)
        if not npy:
            return r
        v = self.new_arr(st, r)
        for z in (a, b):
            if (isinstance(z, Term) and z.op == "seq") or (isinstance(z, ArrRef) and st.h.get(("Aj", z.id))):
                st.h[("Aj", v.id)] = TRUE
        return v

    def percent(self, fmt, v, fr, st):
        vals = list(v.vals) if isinstance(v, PyTuple) else [v]
        import re
        parts, pos, k = [], 0, 0
        for m in re.finditer(r"%(%|[-+0 #]*\d*(?:\.\d+)?[sdrifeEgG])", fmt):
            parts.append(string(fmt[pos:m.start()]))
            pos = m.end()
            if m.group(1) == "%":
                parts.append(string("%"))
                continue
            x = vals[k] if k < len(vals) else None
            k += 1
            if x is None:
                self.fail("TypeError", "not enough arguments for format string", fr, st)
            if m.group(1) in ("s", "d", "i"):
                parts.append(self.to_str(x, fr, st))
            elif isinstance(x, Term) and (x.op == "num" or x.op == "str"):
                parts.append(string(("%" + m.group(1)) % (x.args[0] if x.op == "str" else int(x.args[0]) if m.group(1)[-1] in "di" else float(x.args[0]))))
            else:
                parts.append(self.fmt_term(x, string(m.group(1)), st))
        parts.append(string(fmt[pos:]))
        return self.str_concat(parts)

    def fmt_term(self, x, spec, st):
        t = T("fn", "strfmt", spec, self.term_or_opq(x, st))
        vn.STRSYMS.add(t)
        return t

    def fmt_value(self, v, spec, fr, st):
        """format(v, spec)"""
        if not (isinstance(spec, Term) and spec.op == "str"):
            return self.fmt_term(v, string("?"), st)
        if spec.args[0] == "":
            return self.to_str(v, fr, st)
        if isinstance(v, Term) and v.op in ("num", "str"):
            try:
                x = v.args[0]
                if v.op == "num":
                    x = int(x) if x.denominator == 1 and spec.args[0][-1] not in "feEgG%" else float(x)
                return string(format(x, spec.args[0]))
            except ValueError:
                self.fail("ValueError", "format", fr, st)
        return self.fmt_term(v, spec, st)

    def repeat(self, x, y, st):
        k = vn.cint(y)
        if k is not None:
            if isinstance(x, PyTuple):
                return PyTuple(x.vals * max(k, 0))
            return self.new_glist(st, self.glist(st, x) * max(k, 0))
        if y.op == "ite" or isinstance(x, ListRef):
            e = self.glist(st, x) if isinstance(x, ListRef) else tuple((TRUE, v) for v in x.vals)
            lo, hi = vn._range(y)
            n = int(hi) if hi is not None else UNROLL_SYMBOLIC
            if y.op == "ite":
                ks = [vn.cint(l) for _, l in vn.leaves(y)]
                n = max([k if k is not None else UNROLL_SYMBOLIC for k in ks])
            out = []
            for j in range(n):
                g = vn.lt(num(j), y)
                out += [(band(g, h), v) for h, v in e]
            return self.new_glist(st, [(g, v) for g, v in out if g is not FALSE])
        raise Unsupported("symbolic repetition")

    def is_str(self, t):
        return t.op == "str" or t in vn.STRSYMS or (t.op == "ite" and all(self.is_str(l) for _, l in arr._few_leaves(t)))

    def arith(self, op, x, y):
        if isinstance(op, ast.Add):
            return arr.add(x, y)
        if isinstance(op, ast.Sub):
            return arr.sub(x, y)
        if isinstance(op, ast.Mult):
            return arr.mul(x, y)
        if isinstance(op, ast.Div):
            return arr.div(x, y)
        if isinstance(op, ast.Pow):
            return arr.power(x, y)
        if isinstance(op, ast.MatMult):
            return arr.matmul(x, y)
        if isinstance(op, ast.FloorDiv):
            def fd(a, b):
                if vn.is_num(a) and vn.is_num(b) and b.args[0] != 0:
                    return num(a.args[0] // b.args[0])
                return vn.fn1("floor", vn.div(a, b))
            return arr.ew(fd, x, y)
        if isinstance(op, ast.Mod):
            def md(a, b):
                if vn.is_num(a) and vn.is_num(b) and b.args[0] != 0:
                    return num(a.args[0] % b.args[0])
                return vn.fnterm("mod", a, b)
            return arr.ew(md, x, y)
        if isinstance(op, ast.BitAnd):
            return arr.ew(bits(lambda a, b: a & b, lambda a, b: band(truth(a), truth(b))), x, y)
        if isinstance(op, ast.BitOr):
            return arr.ew(bits(lambda a, b: a | b, lambda a, b: bor(truth(a), truth(b))), x, y)
        if isinstance(op, ast.BitXor):
            return arr.ew(bits(lambda a, b: a ^ b, lambda a, b: ite(truth(a), bnot(truth(b)), truth(b))), x, y)
        if isinstance(op, (ast.LShift, ast.RShift)):
            def sh(a, b):
                i, j = vn.cint(a), vn.cint(b)
                if i is None or j is None:
                    raise Unsupported("shift")
                return num(i << j if isinstance(op, ast.LShift) else i >> j)
            return arr.ew(sh, x, y)
        raise Unsupported("operator " + type(op).__name__)

    def e_Compare(self, n, fr, st):
        left = self.ev(n.left, fr, st)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, fr, st)
            r = self.compare(op, left, right, fr, st)
            if res is None:
                res = r
            else:
                res = band(self.truthy(res, fr, st), self.truthy(r, fr, st))
            left = right
        return res

    def compare(self, op, a, b, fr, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            return bnot(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, fr, st)
            return bnot(r) if isinstance(op, ast.NotIn) else r
        if isinstance(a, Cond):
            return self.fork(a, lambda x, s: self.compare(op, x, b, fr, s), st)
        if isinstance(b, Cond):
            return self.fork(b, lambda x, s: self.compare(op, a, x, fr, s), st)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b, fr, st)
            if isinstance(op, ast.NotEq):
                if isinstance(r, ArrRef):
                    return self.new_arr(st, arr.ew(lambda x: bnot(truth(x)), self.aval(r, st)))
                return arr.ew(lambda x: bnot(truth(x)), r)
            return r
        for l, r, t in ((a, b, type(op)), (b, a, {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(op)])):
            if isinstance(l, Obj):
                f = self.find(l.cls, {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}[t])
                if f is not None:
                    return self.call(Bound(l, f), [r], {}, fr, st)
        if isinstance(a, (PyTuple, ListRef)) and type(a) is type(b):
            x, y = self.iterate(a, fr, st), self.iterate(b, fr, st)
            if any(g is not TRUE for g, _ in x + y):
                raise Unsupported("order of conditional lists")
            strict = isinstance(op, (ast.Lt, ast.Gt))
            inner = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
            n = min(len(x), len(y))
            r = len(x) < len(y) if isinstance(op, (ast.Lt, ast.LtE)) else len(x) > len(y)
            res = TRUE if r or len(x) == len(y) and not strict else FALSE
            for k in range(n - 1, -1, -1):
                p, q = x[k][1], y[k][1]
                e = self.truthy(self.equal(p, q, fr, st), fr, st)
                res = bor(band(bnot(e), self.truthy(self.compare(inner, p, q, fr, st), fr, st)), band(e, res))
            return res
        if isinstance(a, SetRef) and isinstance(b, SetRef):
            if isinstance(op, (ast.Gt, ast.GtE)):
                a, b = b, a
            sub = band(*[bor(bnot(g), self.contains(b, v, fr, st)) for g, v in self.iterate(a, fr, st)])
            if isinstance(op, (ast.Lt, ast.Gt)):
                sub = band(sub, bnot(band(*[bor(bnot(g), self.contains(a, v, fr, st)) for g, v in self.iterate(b, fr, st)])))
            return sub
        x, y = self.term(a, st), self.term(b, st)
        if x.op == "str" and y.op == "str":
            p, q = x.args[0], y.args[0]
            return TRUE if {ast.Lt: p < q, ast.Gt: p > q, ast.LtE: p <= q, ast.GtE: p >= q}[type(op)] else FALSE
        f = {ast.Lt: vn.lt, ast.Gt: lambda p, q: vn.lt(q, p), ast.LtE: vn.le, ast.GtE: lambda p, q: vn.le(q, p)}[type(op)]
        r = arr.ew(f, x, y)
        return self.new_arr(st, r) if isinstance(a, ArrRef) or isinstance(b, ArrRef) else r

    def equal(self, a, b, fr, st):
        for l, r in ((a, b), (b, a)):
            if isinstance(l, Obj):
                f = self.find(l.cls, "__eq__")
                if f is not None:
                    return self.call(Bound(l, f), [r], {}, fr, st)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.id != b.id and a.cls is b.cls and any(
                isinstance(c, ClassVal) and c.attrs.get("__dataclass__") is TRUE and c.attrs.get("__dc_eq__") is not FALSE for c in a.cls.mro):
            return band(*[self.truthy(self.equal(self.getattr(a, n, fr, st), self.getattr(b, n, fr, st), fr, st), fr, st) for n in self.ext.fields_of(a)])
        if isinstance(a, SetRef) and isinstance(b, SetRef):
            return band(*[bor(bnot(g), self.contains(y, v, fr, st)) for x, y in ((a, b), (b, a)) for g, v in self.iterate(x, fr, st)])
        if isinstance(a, (PyTuple, ListRef)) and isinstance(b, (PyTuple, ListRef)) and isinstance(a, PyTuple) != isinstance(b, PyTuple):
            return FALSE
        if isinstance(a, (PyTuple, ListRef, GL)) and isinstance(b, (PyTuple, ListRef, GL)):
            x, y = self.iterate(a, fr, st), self.iterate(b, fr, st)
            if all(g is TRUE for g, _ in x) and all(g is TRUE for g, _ in y):
                if len(x) != len(y):
                    return FALSE
                return band(*[self.truthy(self.equal(p, q, fr, st), fr, st) for (_, p), (_, q) in zip(x, y)]) if x else TRUE
            return vn.eq(self.canon(a, st), self.canon(b, st))
        if isinstance(a, DictRef) and isinstance(b, DictRef):
            return vn.eq(self.canon(a, st), self.canon(b, st))
        if isinstance(a, (Term, ArrRef)) and isinstance(b, (Term, ArrRef, ListRef, PyTuple)) or isinstance(b, (Term, ArrRef)) and isinstance(a, (ListRef, PyTuple)):
            x, y = self.term(a, st), self.term(b, st)
            if not isinstance(a, ArrRef) and not isinstance(b, ArrRef) and (x is NONE or y is NONE):
                return vn.eq(x, y)
            r = arr.ew(vn.eq, x, y)
            return self.new_arr(st, r) if isinstance(a, ArrRef) or isinstance(b, ArrRef) else r
        if isinstance(a, Term) or isinstance(b, Term):
            t = a if isinstance(a, Term) else b
            if t.op == "opq":
                return opq("compare", t)
            return FALSE
        return TRUE if same(a, b) else FALSE

    def identical(self, a, b):
        if isinstance(a, Cond):
            return ite(a.c, self.identical(a.a, b), self.identical(a.b, b))
        if isinstance(b, Cond):
            return ite(b.c, self.identical(a, b.a), self.identical(a, b.b))
        if isinstance(a, Term) and isinstance(b, Term):
            if a is NONE or b is NONE:
                return vn.eq(a, b)
            return vn.eq(a, b) if a.op != "seq" else (TRUE if a is b else FALSE)
        if isinstance(a, Term) and a.op == "opq" or isinstance(b, Term) and b.op == "opq":
            return truth(opq("identity", a if isinstance(a, Term) else b))
        return TRUE if same(a, b) else FALSE

    def contains(self, coll, x, fr, st):
        if isinstance(coll, Cond):
            return self.fork(coll, lambda y, s: self.contains(y, x, fr, s), st)
        if isinstance(coll, DictRef):
            d = self.ddict(st, coll)
            return self.dict_has(d, self.dkey(x, st))
        if isinstance(coll, Term) and coll.op == "str" and isinstance(x, Term) and x.op == "str":
            return TRUE if x.args[0] in coll.args[0] else FALSE
        if isinstance(coll, Term) and coll.op == "opq":
            return truth(opq("in", coll))
        if isinstance(coll, Obj):
            f = self.find(coll.cls, "__contains__")
            if f is not None:
                return self.truthy(self.call(Bound(coll, f), [x], {}, fr, st), fr, st)
        return bor(*[band(g, self.truthy(self.equal(v, x, fr, st), fr, st)) for g, v in self.iterate(coll, fr, st)])

    def dict_has(self, d, k):
        if k in d:
            return d[k][0]
        if k.op == "ite":
            return ite(vn.atom(k.args[0]), self.dict_has(d, k.args[1]), self.dict_has(d, k.args[2]))
        return bor(*[band(g, self.same_key(kk, k)) for kk, (g, _) in d.items()])

    # ---- subscripts
    def ev_index(self, n, fr, st):
        if isinstance(n, ast.Slice):
            f = lambda x: NONE if x is None else self.ev(x, fr, st)
            return SliceVal(f(n.lower), f(n.upper), f(n.step))
        if isinstance(n, ast.Tuple):
            return PyTuple([self.ev_index(x, fr, st) for x in n.elts])
        return self.ev(n, fr, st)

    def e_Slice(self, n, fr, st):
        return self.ev_index(n, fr, st)

    def e_Subscript(self, n, fr, st):
        base = self.ev(n.value, fr, st)
        return self.getitem(base, self.ev_index(n.slice, fr, st), fr, st)

    def idx_path(self, idx, st):
        if isinstance(idx, PyTuple):
            return tuple(p for x in idx.vals for p in self.idx_path(x, st))
        if isinstance(idx, SliceVal):
            return (("sl", self.term(idx.lo, st), self.term(idx.hi, st), self.term(idx.st, st)),)
        if idx is Ellipsis:
            return (Ellipsis,)
        if isinstance(idx, Term):
            if idx is NONE:
                return (arr.NewAxis,)
            return (idx,)
        if isinstance(idx, ExtVal) and idx.path.endswith("newaxis"):
            return (arr.NewAxis,)
        if isinstance(idx, (ArrRef, ListRef, GL, Range)):
            return (self.term(idx, st),)
        if isinstance(idx, Cond):
            return (self.term(idx, st),)
        raise Unsupported("index")

    def getitem(self, base, idx, fr, st):
        if isinstance(base, Cond):
            return self.fork(base, lambda x, s: self.getitem(x, idx, fr, s), st)
        if isinstance(idx, Cond) and not isinstance(base, (Term, ArrRef)):
            return self.fork(idx, lambda x, s: self.getitem(base, x, fr, s), st)
        if isinstance(base, ExtVal) and base.path in ("numpy.s_", "numpy.index_exp", "jax.numpy.s_", "jax.numpy.index_exp"):
            return idx if base.path.endswith("s_") or isinstance(idx, PyTuple) else PyTuple([idx])
        if isinstance(base, ExtVal) and base.path in ("numpy.c_", "jax.numpy.c_"):
            return self.call(ExtVal(base.path[:-2] + "column_stack"), [idx if isinstance(idx, PyTuple) else PyTuple([idx])], {}, fr, st)
        if isinstance(base, ExtVal) and base.path in ("numpy.r_", "jax.numpy.r_"):
            out = []
            for x in (idx.vals if isinstance(idx, PyTuple) else [idx]):
                if isinstance(x, SliceVal):
                    lo, hi, sp = [self.term(v, st) for v in (x.lo, x.hi, x.st)]
                    lo, hi, sp = [d if v is NONE else vn.cint(v) for v, d in ((lo, 0), (hi, None), (sp, 1))]
                    if None in (lo, hi, sp):
                        raise Unsupported("r_")
                    out += [vn.num(k) for k in range(lo, hi, sp)]
                else:
                    t = self.term(x, st)
                    if arr.varshape(t) or len(arr.shape(t)) > 1:
                        raise Unsupported("r_")
                    out += list(arr.flat(t))
            return self.new_arr(st, vn.seq(out)) if base.path == "numpy.r_" else vn.seq(out)
        if isinstance(base, ClassVal) or (isinstance(base, ExtVal)):
            return base   # generic alias such as dict[str, x]
        if isinstance(base, ArrRef):
            path = self.idx_path(idx, st)
            basic = all((isinstance(p, tuple) or p is arr.NewAxis or p is Ellipsis or (isinstance(p, Term) and vn.cint(p) is not None and p.op == "num"))
                        for p in path)
            t = self.aval(base, st)
            v = arr.index(t, path)
            if v.op == "seq" or arr.varshape(v):
                if basic:
                    if any(p is Ellipsis for p in path) and not arr.varshape(t):
                        path = arr._expand(t, path)
                    if not any(p is Ellipsis for p in path):
                        keep = tuple(p for p in path if p is not arr.NewAxis)
                        r = ArrRef(base.id, base.path + ((keep,) if keep else ()))
                        if len(keep) != len(path):
                            if arr.varshape(v):
                                return self.new_arr(st, v)
                            r = ArrRef(r.id, r.path + (View("reshape", arr.shape(v)),))
                        return r
                return self.new_arr(st, v)
            return v
        if isinstance(base, Term):
            if base.op == "str":
                if isinstance(idx, Term) and vn.cint(idx) is not None:
                    if not -len(base.args[0]) <= vn.cint(idx) < len(base.args[0]):
                        self.fail("IndexError", "string index", fr, st)
                    return string(base.args[0][vn.cint(idx)])
                if isinstance(idx, SliceVal):
                    cs = [None if x is NONE else vn.cint(self.term(x, st)) for x in (idx.lo, idx.hi, idx.st)]
                    if not any(c is None and x is not NONE for c, x in zip(cs, (idx.lo, idx.hi, idx.st))):
                        return string(base.args[0][slice(*cs)])
                raise Unsupported("string index")
            if base.op == "ite" and self.is_str(base):
                return ite(vn.atom(base.args[0]), self.getitem(base.args[1], idx, fr, st), self.getitem(base.args[2], idx, fr, st))
            if base.op == "opq":
                return opq("item of unknown", base)
            if base in vn.STRSYMS:
                raise Unsupported("string index")
            return arr.index(base, self.idx_path(idx, st))
        if isinstance(base, (ListRef, PyTuple, GL)):
            e = self.iterate(base, fr, st)
            r = self.list_get(e, idx, st)
            if isinstance(r, tuple):
                if isinstance(base, PyTuple):
                    return PyTuple([v for _, v in r])
                return self.new_glist(st, r)
            return r
        if isinstance(base, DictRef):
            if hasattr(base, "factory"):
                return self.ext.dd_get(base, idx, fr, st)
            d = self.ddict(st, base)
            k = self.dkey(idx, st)
            if not k.taint:
                self.fail_if(bnot(self.dict_has(d, k)), "KeyError", "key", fr, st)
            return self.dict_get(d, k, st)
        if isinstance(base, InstDict):
            return self.getattr(base.obj, idx.args[0], fr, st)
        if isinstance(base, AtHelper):
            return AtHelper(base.arr, self.idx_path(idx, st))
        if isinstance(base, Obj):
            f = self.find(base.cls, "__getitem__")
            if f is not None:
                return self.call(Bound(base, f), [idx], {}, fr, st)
        if isinstance(base, Range):
            return self.getitem(GL(self.iterate(base, fr, st)), idx, fr, st)
        return self.unknown("subscript of " + type(base).__name__)

    def dict_get(self, d, k, st, default=None):
        k = self.dkey(k, st)
        if k in d:
            g, v = d[k]
            if default is not None:
                return vite(g, v, default)
            return v
        if k.op == "ite":
            return vite(vn.atom(k.args[0]), self.dict_get(d, k.args[1], st, default), self.dict_get(d, k.args[2], st, default))
        if k.taint:
            return opq("dict key unknown", k)
        r = default
        hit = False
        for kk, (g, v) in d.items():
            c = self.same_key(kk, k)
            if c is FALSE:
                continue
            hit = True
            c = band(g, c)
            r = v if r is None else vite(c, v, r)
        if r is None:
            raise ShapeError(f"KeyError {vn.show(k)}", "KeyError")
        return r

    def list_get(self, e, idx, st):
        """element (value) or slice (tuple of entries) of a guarded list"""
        if isinstance(idx, SliceVal):
            if all(g is TRUE for g, _ in e):
                return self.slice_entries(e, idx, st)
            # common idioms on guarded lists: [a:] and [:b] when the prefix is unguarded
            lo = vn.cint(self.term(idx.lo, st)) if idx.lo is not NONE else 0
            if idx.hi is NONE and idx.st is NONE and lo is not None and lo >= 0 and all(g is TRUE for g, _ in e[:lo]):
                return tuple(e[lo:])
            hi = vn.cint(self.term(idx.hi, st)) if idx.hi is not NONE else None
            if hi is not None and hi >= 0 and lo is not None and lo >= 0 and idx.st is NONE and all(g is TRUE for g, _ in e[:hi]):
                return tuple(e[lo:hi])
            out, cnt = [], ZERO
            if lo is not None and lo >= 0 and (idx.hi is NONE or isinstance(idx.hi, Term)) and idx.st is NONE:
                h = idx.hi
                for g, v in e:
                    c = g
                    if lo:
                        c = band(c, vn.le(num(lo), cnt))
                    if h is not NONE:
                        c = band(c, vn.lt(cnt, h))
                    out.append((c, v))
                    cnt = vn.add(cnt, ite(g, ONE, ZERO))
                return tuple((c, v) for c, v in out if c is not FALSE)
            raise Unsupported("slice of guarded list")
        i = self.term(idx, st)
        if i.op == "ite":
            return vite(vn.atom(i.args[0]), self.list_get(e, i.args[1], st), self.list_get(e, i.args[2], st))
        k = vn.cint(i)
        if k is not None:
            es = e if k >= 0 else tuple(reversed(e))
            k = k if k >= 0 else -k - 1
            if k < len(es) and all(g is TRUE for g, _ in es[:k + 1]):
                return es[k][1]
            res, cnt, rem = None, ZERO, TRUE
            opts = []
            for g, v in es:
                opts.append((band(g, vn.eq(cnt, num(k))), v))
                cnt = vn.add(cnt, ite(g, ONE, ZERO))
            opts = [(c, v) for c, v in opts if c is not FALSE]
            if not opts:
                raise ShapeError("IndexError", "IndexError")
            res = opts[-1][1]
            for c, v in reversed(opts[:-1]):
                res = vite(c, v, res)
            return res
        # symbolic index into a plain list
        if all(g is TRUE for g, _ in e) and e:
            res = e[-1][1]
            for j in range(len(e) - 2, -1, -1):
                res = vite(vn.eq(i, num(j)), e[j][1], res)
            return res
        raise Unsupported("symbolic index")

    def slice_entries(self, e, idx, st):
        lo, hi, sp = (self.term(x, st) for x in (idx.lo, idx.hi, idx.st))
        cs = [None if x is NONE else vn.cint(x) for x in (lo, hi, sp)]
        if any(c is None and x is not NONE for c, x in zip(cs, (lo, hi, sp))):
            if lo in (NONE, ZERO) and sp is NONE:
                return tuple((band(g, vn.lt(num(j), hi)), v) for j, (g, v) in enumerate(e))
            raise Unsupported("symbolic slice")
        return tuple(e[slice(*cs)])

    def setitem(self, base, idx, v, fr, st):
        if isinstance(base, Cond):
            s1 = st.copy()
            s2 = st.copy()
            self.setitem(base.a, idx, v, fr, s1)
            self.setitem(base.b, idx, v, fr, s2)
            m = merge_states(base.c, s1, s2)
            st.h = m.h
            return
        if isinstance(base, ArrRef):
            self.aset(base, self.idx_path(idx, st), self.term(v, st), st)
            return
        if isinstance(base, ListRef):
            e = list(self.glist(st, base))
            if isinstance(idx, SliceVal):
                lo, hi = idx.lo, idx.hi
                cs = [None if x is NONE else vn.cint(x) for x in (lo, hi)]
                if any(c is None and x is not NONE for c, x in zip(cs, (lo, hi))) or any(g is not TRUE for g, _ in e):
                    raise Unsupported("slice assignment")
                e[slice(*cs)] = list(self.iterate(v, fr, st))
                self.wr(st, ("L", base.id), GL(e))
                return
            i = self.term(idx, st)
            k = vn.cint(i)
            if k is not None and all(g is TRUE for g, _ in e):
                if not -len(e) <= k < len(e):
                    raise ShapeError("IndexError", "IndexError")
                e[k] = (TRUE, v)
            elif all(g is TRUE for g, _ in e):
                e = [(TRUE, vite(vn.eq(i, num(j)), v, w)) for j, (g, w) in enumerate(e)]
            else:
                raise Unsupported("list assignment")
            self.wr(st, ("L", base.id), GL(e))
            return
        if isinstance(base, DictRef):
            d = dict(self.ddict(st, base))
            k = self.dkey(idx, st)
            self.dict_put(d, k, v)
            self.wr(st, ("D", base.id), d)
            return
        if isinstance(base, Obj):
            f = self.find(base.cls, "__setitem__")
            if f is not None:
                self.call(Bound(base, f), [idx, v], {}, fr, st)
                return
        if isinstance(base, InstDict) and isinstance(idx, Term) and idx.op == "str":
            self.wr(st, ("a", base.obj.id, idx.args[0]), v)
            return
        if isinstance(base, PyTuple):
            self.fail("TypeError", "tuple assignment", fr, st)
        if isinstance(base, Term) and base.op != "opq":
            self.raise_exc(ExcVal("TypeError", (string("immutable array"),)), fr, st, TRUE)
            raise Dead()
        self.notes.append("setitem on " + type(base).__name__ + self.where())

    def dict_put(self, d, k, v, g=TRUE):
        if k.op == "ite":
            c = vn.atom(k.args[0])
            self.dict_put(d, k.args[1], v, band(g, c))
            self.dict_put(d, k.args[2], v, band(g, bnot(c)))
        elif g is TRUE:
            d[k] = (TRUE, v)
        elif g is not FALSE:
            d[k] = (bor(d[k][0], g), vite(g, v, d[k][1])) if k in d else (g, v)

    def dict_update(self, ref, other, fr, st):
        d = dict(self.ddict(st, ref))
        if isinstance(other, Cond):
            s1, s2 = st.copy(), st.copy()
            self.dict_update(ref, other.a, fr, s1)
            self.dict_update(ref, other.b, fr, s2)
            st.h = merge_states(other.c, s1, s2).h
            return
        if isinstance(other, DictRef):
            for k, (g, v) in self.ddict(st, other).items():
                self.dict_put(d, k, v, g)
        elif isinstance(other, (ListRef, GL, PyTuple, IterRef)):
            for g, kv in self.iterate(other, fr, st):
                k, v = [x for _, x in self.iterate(kv, fr, st)]
                self.dict_put(d, self.dkey(k, st), v, g)
        else:
            raise Unsupported("dict.update")
        self.wr(st, ("D", ref.id), d)

    # ---- comprehensions
    def sub_frame(self, fr):
        """scope of a comprehension"""
        if not fr.sinks:
            fr.__dict__.setdefault("raised", [])
        cf = copy.copy(fr)
        cf.fid = self.new_id()
        cf.closure = () if isinstance(fr.fid, tuple) else (fr.fid,) + tuple(fr.closure)
        cf.outer = fr
        cf.captured = False
        cf.globals_, cf.nonlocals = fr.globals_, set()
        return cf

    def comp(self, gens, fr, st, emit):
        """emit(guard, frame) for every element; conditions are evaluated where they are reached"""
        cf = self.sub_frame(fr)

        def go(k, guard):
            if k == len(gens):
                emit(guard, cf)
                return
            g = gens[k]
            it = self.ev(g.iter, fr if k == 0 else cf, st)
            for gd, v in (self.endless(it, st) if isinstance(it, InfIter) else self.iterate(it, fr, st)):
                gg = band(guard, gd)
                if gg is FALSE:
                    continue
                self.assign(g.target, v, cf, st)
                dead = False
                for c in g.ifs:
                    gg = band(gg, self.under(gg, lambda s: self.cond(c, cf, s), st))
                    if gg is FALSE:
                        dead = True
                        break
                if not dead:
                    go(k + 1, gg)

        go(0, TRUE)
        if not cf.captured:
            for k in [k for k in st.h if k[0] == "v" and k[1] == cf.fid]:
                del st.h[k]

    def under(self, guard, f, st):
        """evaluate f when guard holds, keeping effects gated"""
        if guard is TRUE:
            return f(st)
        s2 = st.copy()
        st.pc = band(st.pc, guard)
        s2.pc = band(s2.pc, bnot(guard))
        try:
            v = f(st)
        except Dead:
            if s2.pc is FALSE:
                raise
            st.assign(s2)
            return NONE
        st.assign(merge_states(guard, st, s2))
        return v

    def e_ListComp(self, n, fr, st):
        out = []
        self.comp(n.generators, fr, st, lambda g, cf: out.append((g, self.under(g, lambda s: self.ev(n.elt, cf, s), st))))
        return self.new_glist(st, out)

    def e_GeneratorExp(self, n, fr, st):
        out = []
        self.comp(n.generators, fr, st, lambda g, cf: out.append((g, self.under(g, lambda s: self.ev(n.elt, cf, s), st))))
        return self.new_iter(st, out)

    def e_SetComp(self, n, fr, st):
        return self.ext.call_builtin("set", [self.e_ListComp(n, fr, st)], {}, fr, st)

    def e_DictComp(self, n, fr, st):
        d = {}

        def emit(g, cf):
            k = self.under(g, lambda s: self.ev(n.key, cf, s), st)
            v = self.under(g, lambda s: self.ev(n.value, cf, s), st)
            k = self.dkey(k, st)
            self.dict_put(d, k, v, g)
        self.comp(n.generators, fr, st, emit)
        return self.new_dict(st, d)

    # -------------------------------------------------------------- conversion
    def aval(self, ref, st):
        t = self.rd(st, ("A", ref.id))
        if t is UNDEF:
            return opq("array undefined")
        for p in ref.path:
            t = p.fwd(t) if isinstance(p, View) else arr.index(t, p)
        return t

    def view(self, ref, kind, dims, st):
        """transposed or reshaped array that shares its cell with ref; None when numpy would copy"""
        t = self.aval(ref, st)
        if arr.varshape(t):
            return None
        if kind == "T":
            return ArrRef(ref.id, ref.path + (View("T"),)) if len(arr.shape(t)) == 2 else ref
        whole = True
        for p in ref.path:
            if isinstance(p, View):
                whole = whole and p.kind != "T"
            elif len(p) != 1 or isinstance(p[0], tuple) and p[0][3] not in (NONE, ONE):
                whole = False
        if not whole:
            return None
        return ArrRef(ref.id, ref.path + (View("reshape", tuple(dims)),))

    def aset(self, ref, path, v, st):
        base = self.rd(st, ("A", ref.id))
        if st.h.get(("Ad", ref.id)) == "int":
            v = self.ext.cast(v, ExtVal("int"))

        def upd(t, paths):
            if not paths:
                return arr.iset(t, path, v) if path else (arr.broadcast_to(v, arr.shape(t)) if not arr.varshape(v) and not arr.varshape(t) else v)
            if isinstance(paths[0], View):
                return paths[0].back(upd(paths[0].fwd(t), paths[1:]), t)
            inner = upd(arr.index(t, paths[0]), paths[1:])
            return arr.iset(t, paths[0], inner)
        self.wr(st, ("A", ref.id), upd(base, list(ref.path)))

    def term(self, v, st):
        """numeric/array view of a value"""
        if isinstance(v, Term):
            return v
        if isinstance(v, ArrRef):
            return self.aval(v, st)
        if isinstance(v, Cond):
            return ite(v.c, self.term(v.a, st), self.term(v.b, st))
        if isinstance(v, (ListRef, PyTuple, GL, Range, IterRef)):
            e = self.iterate(v, None, st)
            return self.seq_of([(g, self.term(x, st)) for g, x in e])
        if isinstance(v, SetRef):
            return self.seq_of([(g, self.term(x, st)) for g, x in self.rd(st, ("L", v.id)).e])
        if isinstance(v, Obj):
            s = self.state_of_wrapper(v, st)
            if s is not None:
                return s
        if v is Ellipsis:
            raise Unsupported("ellipsis")
        raise Unsupported("array of " + type(v).__name__)

    def state_of_wrapper(self, v, st):
        return None

    def term_or_opq(self, v, st):
        try:
            return self.canon(v, st)
        except Unsupported as e:
            return opq(str(e))

    def seq_of(self, e):
        if all(g is TRUE for g, _ in e):
            items = [t for _, t in e]
            # rows of conditional shape: hoist
            for t in items:
                if t.op == "ite" and arr.varshape(t):
                    v = vn.min_atom(*[x for x in items if x.op == "ite" and arr.varshape(x)])
                    return ite(vn.atom(v), self.seq_of([(TRUE, vn.restrict(x, v, True)) for x in items]),
                               self.seq_of([(TRUE, vn.restrict(x, v, False)) for x in items]))
            return seq(items)
        for k, (g, t) in enumerate(e):
            if g is not TRUE:
                v = vn.min_atom(*[g for g, _ in e])

                def r(val):
                    return self.seq_of([(vn.restrict(g, v, val), vn.restrict(t, v, val)) for g, t in e if vn.restrict(g, v, val) is not FALSE])
                return ite(vn.atom(v), r(True), r(False))

    def canon(self, v, st, seen=()):
        """value number of an arbitrary value (for comparisons)"""
        if isinstance(v, Term):
            return v
        if isinstance(v, ArrRef):
            return self.aval(v, st)
        if isinstance(v, Cond):
            return ite(v.c, self.canon(v.a, st, seen), self.canon(v.b, st, seen))
        if isinstance(v, IterRef):
            return self.seq_of([(g, self.canon(x, st, seen)) for g, x in self.peek(v, st)])
        if isinstance(v, (ListRef, GL, Range)):
            return self.seq_of([(g, self.canon(x, st, seen)) for g, x in self.iterate(v, None, st)])
        if isinstance(v, PyTuple):
            return seq([self.canon(x, st, seen) for x in v.vals])
        if isinstance(v, DictRef):
            d = self.ddict(st, v)
            ks = sorted(d, key=lambda k: (k.op, vn.show(k)))
            return T("dict", *[T("kv", k, d[k][0], self.canon(d[k][1], st, seen)) for k in ks])
        if isinstance(v, (Obj,)):
            return T("obj", v.id)
        if isinstance(v, SetRef):
            return T("set", *sorted({T("kv", self.canon(x, st), g) for g, x in self.rd(st, ("L", v.id)).e}, key=lambda t: vn.show(t)))
        if isinstance(v, ClassVal):
            return T("cls", v.name)
        if isinstance(v, ExtVal):
            return T("ext", v.path)
        if isinstance(v, ExtObj):
            return T("extobj", v.path, seq([self.canon(a, st) for a in v.args]), *[T("kv", string(k), TRUE, self.canon(v.kw[k], st)) for k in sorted(v.kw)])
        if isinstance(v, ExcVal):
            return T("exc", v.name)
        if isinstance(v, Bound):
            return T("bound", self.canon(v.obj, st), v.func.qual if isinstance(v.func, FuncVal) else "?")
        if isinstance(v, FuncVal):
            return T("func", v.qual)
        if isinstance(v, JitFn):
            return self.canon(v.f, st)
        if v is UNDEF:
            return opq("undefined")
        return opq("value " + type(v).__name__)

    # -------------------------------------------------------------- iteration
    def length(self, v, fr, st):
        if isinstance(v, Cond):
            return self.fork(v, lambda x, s: self.length(x, fr, s), st)
        if isinstance(v, Term):
            if v.op == "str":
                return num(len(v.args[0]))
            if v.op == "ite":
                return ite(vn.atom(v.args[0]), self.length(v.args[1], fr, st), self.length(v.args[2], fr, st))
            if v.op == "seq":
                return num(len(v.args))
            return opq("len", v)
        if isinstance(v, ArrRef):
            return self.length(self.aval(v, st), fr, st)
        if isinstance(v, Obj):
            f = self.find(v.cls, "__len__")
            if f is not None:
                return self.call(Bound(v, f), [], {}, fr, st)
            return self.unknown("len of object")
        if isinstance(v, Range):
            if v.s is ONE:
                d = vn.sub(v.b, v.a)
                return ite(vn.lt(d, ZERO), ZERO, d)
        if isinstance(v, SetRef):
            v = GL(self.rd(st, ("L", v.id)).e)
        n = ZERO
        for g, _ in self.iterate(v, fr, st):
            n = vn.add(n, ite(g, ONE, ZERO))
        return n

    def iterate(self, v, fr, st):
        """tuple of (guard, value)"""
        if isinstance(v, PyTuple):
            return tuple((TRUE, x) for x in v.vals)
        if isinstance(v, ListRef):
            return self.glist(st, v)
        if isinstance(v, SetRef):
            return self.rd(st, ("L", v.id)).e
        if isinstance(v, GL):
            return v.e
        if isinstance(v, InstDict):
            return tuple((TRUE, string(k[2])) for k in self.inst(v, st))
        if isinstance(v, IterRef):
            e = self.peek(v, st)
            if e:
                self.wr(st, ("I", v.id), GL(()))
            return e
        if isinstance(v, DictRef):
            return tuple((g, self.kobj.get(k, k)) for k, (g, _) in self.ddict(st, v).items())
        if isinstance(v, Range):
            return self.iter_range(v)
        if isinstance(v, ArrRef):
            t = self.aval(v, st)
            if t.op == "seq":
                out = []
                for k, x in enumerate(t.args):
                    out.append((TRUE, ArrRef(v.id, v.path + ((num(k),),)) if x.op == "seq" else x))
                return tuple(out)
            return self.iterate(t, fr, st)
        if isinstance(v, Term):
            if v.op == "seq":
                return tuple((TRUE, x) for x in v.args)
            if v.op == "str":
                return tuple((TRUE, string(c)) for c in v.args[0])
            if v.op == "ite":
                return vite(vn.atom(v.args[0]), GL(self.iterate(v.args[1], fr, st)), GL(self.iterate(v.args[2], fr, st))).e
            if v.op == "opq":
                return ((TRUE, opq("element of unknown", v)),)
        if isinstance(v, Cond):
            return merge_list(v.c, GL(self.iterate(v.a, fr, st)), GL(self.iterate(v.b, fr, st))).e
        if isinstance(v, Obj):
            f = self.find(v.cls, "__iter__")
            if f is not None:
                return self.iterate(self.call(Bound(v, f), [], {}, fr, st), fr, st)
            f = self.find(v.cls, "__getitem__")
            if f is not None and self.find(v.cls, "__len__") is not None:
                n = vn.cint(self.term(self.length(v, fr, st), st))
                if n is not None:
                    return tuple((TRUE, self.call(Bound(v, f), [num(k)], {}, fr, st)) for k in range(n))
        if isinstance(v, ClassVal):
            return tuple((TRUE, x) for x in v.attrs.values() if isinstance(x, Obj) and x.cls is v)
        if isinstance(v, ExtObj):
            return ((TRUE, self.unknown("iterate " + v.path)),)
        raise Unsupported("iterate " + type(v).__name__)

    def iter_range(self, r):
        a, b, s = r.a, r.b, r.s
        k = vn.cint(s)
        if k is None:
            return self.ext_range_symstep(r)
        ka, kb = vn.cint(a), vn.cint(b)
        if ka is not None and kb is not None:
            rng = range(ka, kb, k)
            if len(rng) > 5000:
                raise Unsupported("long range")
            return tuple((TRUE, num(j)) for j in rng)
        out = []
        for j in range(UNROLL_SYMBOLIC + 1):
            x = vn.add(a, num(j * k))
            g = vn.lt(x, b) if k > 0 else vn.lt(b, x)
            if g is FALSE:
                break
            if j == UNROLL_SYMBOLIC:
                self.notes.append(f"range bound {UNROLL_SYMBOLIC} for range({vn.show(a)}, {vn.show(b)})")
                break
            # range elements are consecutive: element j exists only if j-1 exists
            if out:
                g = band(out[-1][0], g)
                if g is FALSE:
                    break
            out.append((g, x))
        return tuple(out)

    def ext_range_symstep(self, r):
        raise Unsupported("range with symbolic step")

    # -------------------------------------------------------------- classes / attributes
    def find(self, cls, name, after=None):
        mro = cls.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, ClassVal) and name in c.attrs:
                return c.attrs[name]
        return None

    def ext_base(self, cls, after=None):
        mro = cls.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, ExtVal) and c.path not in ("abc.ABC", "object", "typing.Protocol", "typing.Generic"):
                return c.path
        return None

    def getattr(self, o, name, fr, st, default=None):
        if isinstance(o, Cond):
            return self.fork(o, lambda x, s: self.getattr(x, name, fr, s, default), st)
        if isinstance(o, Obj):
            d = self.find(o.cls, name)
            if isinstance(d, PropertyVal):
                return self.call(Bound(o, d.get), [], {}, fr, st)
            v = self.rd(st, ("a", o.id, name))
            if isinstance(d, CachedProp):
                return self.read_cached(o, name, d, v, fr, st)
            if v is not UNDEF:
                pk = ("pa", o.id, name)
                g = self.rd(st, pk, TRUE) if pk in st.h else TRUE
                if g is TRUE:
                    return v
                if d is not None:
                    return vite(g, v, self.bind_attr(o, d))
                if default is not None:
                    return vite(g, v, default)
                hook = self.find(o.cls, "__getattr__")
                if hook is not None:
                    return self.branch(g, lambda s: v, lambda s: self.call(Bound(o, hook), [string(name)], {}, fr, s), st)
                self.fail_if(bnot(g), "AttributeError", name, fr, st)
                return v
            if d is not None:
                return self.bind_attr(o, d)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return InstDict(o)
            eb = self.ext_base(o.cls)
            if eb is not None:
                return self.ext.obj_attr(o, eb, name, fr, st)
            g = self.find(o.cls, "__getattr__")
            if g is not None:
                return self.call(Bound(o, g), [string(name)], {}, fr, st)
            if default is not None:
                return default
            self.raise_exc(ExcVal("AttributeError", (string(name),), key=name), fr, st, TRUE)
            raise Dead()
        if isinstance(o, SuperVal):
            d = self.find(o.obj.cls if isinstance(o.obj, Obj) else o.obj, name, o.after)
            if d is not None:
                if isinstance(d, PropertyVal):
                    return self.call(Bound(o.obj, d.get), [], {}, fr, st)
                return self.bind_attr(o.obj, d)
            eb = self.ext_base(o.obj.cls, o.after)
            if name == "__init__":
                return BuiltinM(o.obj, "__ext_init__:" + (eb or "object"))
            if name in ("__setattr__", "__init_subclass__", "__post_init__", "__enter__", "__exit__"):
                return BuiltinM(o.obj, name)
            if eb is not None:
                return self.ext.obj_attr(o.obj, eb, name, fr, st)
            self.raise_exc(ExcVal("AttributeError", (string(name),), key=name), fr, st, TRUE)
            raise Dead()
        if isinstance(o, ClassVal):
            d = self.find(o, name)
            if d is not None:
                if isinstance(d, StaticM):
                    return d.f
                if isinstance(d, ClassM):
                    return Bound(o, d.f)
                return d
            if name == "__name__":
                return string(o.name)
            if default is not None:
                return default
            return self.unknown(f"class attribute {o.name}.{name}")
        if isinstance(o, ModVal):
            v = self.mod_attr(st, o.name, name)
            if v is UNDEF:
                return self.unknown(f"module attribute {o.name}.{name}")
            return v
        if isinstance(o, ExtVal):
            return self.ext.attr_path(o.path + "." + name)
        return self.ext.value_attr(o, name, fr, st, default)

    def read_cached(self, o, name, d, v, fr, st):
        MEMO[:] = [True]
        have = self.rd(st, ("cp", o.id, name), FALSE)

        def fresh(s):
            w = self.call(Bound(o, d.get), [], {}, fr, s)
            self.wr(s, ("a", o.id, name), w)
            self.wr(s, ("cp", o.id, name), TRUE)
            return w
        return self.branch(have, lambda s: v, fresh, st)

    def call_lru(self, f, args, kw, fr, st):
        for a in list(args) + list(kw.values()):
            if isinstance(a, (ArrRef, ListRef, DictRef, SetRef)) or isinstance(a, Term) and (a.op == "seq" or arr.varshape(a)):
                self.raise_exc(ExcVal("TypeError", (string("unhashable"),)), fr, st, TRUE)
                raise Dead()
        key = seq([self.canon(a, st) for a in args] + [x for k in sorted(kw) for x in (string(k), self.canon(kw[k], st))])
        MEMO[:] = [True]
        cell = ("lru", f.id)

        def go(k, s):
            e = self.rd(s, cell, GL(())).e
            if k >= n:
                v = self.call(f.f, args, kw, fr, s)
                e = self.rd(s, cell, GL(())).e
                self.wr(s, cell, GL(e + ((TRUE, PyTuple([key, v])),)))
                return v
            g, kv = e[k]
            c = band(g, self.same_key(kv.vals[0], key))
            return self.branch(c, lambda q: kv.vals[1], lambda q: go(k + 1, q), s)
        n = len(self.rd(st, cell, GL(())).e)
        return go(0, st)

    def dkey(self, k, st):
        """value number of a dict key; keys that are no scalars can be got back through kobj"""
        if isinstance(k, Term):
            return k
        if isinstance(k, Cond):
            return ite(k.c, self.dkey(k.a, st), self.dkey(k.b, st))
        if isinstance(k, Obj):
            if self.find(k.cls, "__eq__") is not None or self.find(k.cls, "__hash__") is not None:
                return self.unknown("dict key")
            t = self.canon(k, st)
        elif isinstance(k, PyTuple):
            t = seq([self.dkey(x, st) for x in k.vals])
        elif isinstance(k, (ClassVal, ExtVal)):
            t = self.canon(k, st)
        elif isinstance(k, FuncVal):
            t = T("obj", "f", id(k))
        else:
            return self.unknown("dict key")
        self.kobj[t] = k
        return t

    def same_key(self, a, b):
        if a.op in KEYOPS and b.op in KEYOPS | {"str", "num", "seq", "none"} or b.op in KEYOPS and a.op in KEYOPS | {"str", "num", "seq", "none"}:
            return TRUE if a is b else FALSE
        if (a.op == "seq") != (b.op == "seq") and (a.op in ("str", "num", "none") or b.op in ("str", "num", "none")):
            return FALSE
        if a.op == "seq" and b.op == "seq":
            return band(*[self.same_key(x, y) for x, y in zip(a.args, b.args)]) if len(a.args) == len(b.args) and a.args else (TRUE if len(a.args) == len(b.args) else FALSE)
        return vn.eq(a, b)

    def bind_attr(self, o, d):
        if isinstance(d, (FuncVal, LruFn, CtxFactory)):
            return Bound(o, d)
        if isinstance(d, StaticM):
            return d.f
        if isinstance(d, ClassM):
            return Bound(o.cls, d.f)
        if isinstance(d, JitFn) and isinstance(d.f, FuncVal):
            return Bound(o, d)
        return d

    def setattr(self, o, name, v, fr, st):
        if isinstance(o, Cond):
            s1, s2 = st.copy(), st.copy()
            self.setattr(o.a, name, v, fr, s1)
            self.setattr(o.b, name, v, fr, s2)
            st.h = merge_states(o.c, s1, s2).h
            return
        if isinstance(o, Obj):
            d = self.find(o.cls, name)
            if isinstance(d, PropertyVal):
                if d.set is None:
                    self.raise_exc(ExcVal("AttributeError", (string(name),), key=name), fr, st, TRUE)
                    raise Dead()
                self.call(Bound(o, d.set), [v], {}, fr, st)
                return
            if isinstance(d, CachedProp):
                self.wr(st, ("cp", o.id, name), TRUE)
            if any(isinstance(c, ClassVal) and c.attrs.get("__frozen__") is TRUE for c in o.cls.mro):
                self.fail("AttributeError", "frozen " + name, fr, st)
            h = self.find(o.cls, "__setattr__")
            if h is not None:
                self.call(Bound(o, h), [string(name), v], {}, fr, st)
                return
            self.wr(st, ("a", o.id, name), v)
            return
        if isinstance(o, ClassVal):
            o.attrs[name] = v
            return
        if isinstance(o, (ExtObj,)):
            self.wr(st, ("a", o.id, name), v)
            return
        self.notes.append(f"setattr on {type(o).__name__}.{name}" + self.where())

    # -------------------------------------------------------------- calls
    def e_Call(self, n, fr, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.keywords:
            if n.args:
                c, o = (self.ev(a, fr, st) for a in n.args)
                return SuperVal(o, c)
            f = fr
            while getattr(f, "outer", None) is not None:
                f = f.outer
            return SuperVal(self.rd(st, ("v", f.fid, f.self_name)) if f.self_name else None, f.cls)
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "eval", "exec"):
            raise Unsupported(n.func.id)
        f = self.ev(n.func, fr, st)
        if isinstance(f, ExtVal) and f.path in ("any", "all") and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
            g0 = n.args[0]
            found = [FALSE]

            def emit(g, cf):
                g = band(g, bnot(found[0]))
                if g is FALSE:
                    return
                c = self.under(g, lambda s: self.cond(g0.elt, cf, s), st)
                found[0] = bor(found[0], band(g, c if f.path == "any" else bnot(c)))
            self.comp(g0.generators, fr, st, emit)
            return found[0] if f.path == "any" else bnot(found[0])
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                for g, v in self.iterate(self.ev(a.value, fr, st), fr, st):
                    if g is not TRUE:
                        raise Unsupported("guarded star argument")
                    args.append(v)
            else:
                args.append(self.ev(a, fr, st))
        for k in n.keywords:
            v = self.ev(k.value, fr, st)
            if k.arg is None:
                if isinstance(v, DictRef):
                    for kk, (g, x) in self.ddict(st, v).items():
                        if kk.op != "str":
                            raise Unsupported("keyword")
                        if g is not TRUE:
                            raise Unsupported("guarded keyword")
                        kw[kk.args[0]] = x
                elif isinstance(v, Term) and v is NONE:
                    pass
                else:
                    raise Unsupported("** of " + type(v).__name__)
            else:
                kw[k.arg] = v
        self.cur_node = n
        return self.call(f, args, kw, fr, st, n)

    def call(self, f, args, kw, fr, st, node=None):
        if isinstance(f, Cond):
            return self.branch(f.c, lambda s: self.call(f.a, args, kw, fr, s, node), lambda s: self.call(f.b, args, kw, fr, s, node), st)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw, fr, st)
        if isinstance(f, Bound):
            return self.call(f.func, [f.obj] + list(args), kw, fr, st, node)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw, fr, st)
        if isinstance(f, Obj):
            m = self.find(f.cls, "__call__")
            if m is not None:
                return self.call(Bound(f, m), args, kw, fr, st, node)
            eb = self.ext_base(f.cls)
            return self.unknown("call of object " + f.cls.name)
        if isinstance(f, JitFn):
            return self.call_jit(f, args, kw, fr, st)
        if isinstance(f, VmapFn):
            return self.call_vmap(f, args, kw, fr, st)
        if isinstance(f, GradFn):
            return self.call_grad(f, args, kw, fr, st)
        if isinstance(f, Partial):
            return self.call(f.f, list(f.args) + list(args), {**f.kw, **kw}, fr, st, node)
        if isinstance(f, Intrinsic):
            return f.fn(args, kw, fr, st)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw, fr, st, node)
        if isinstance(f, (ExtVal, BuiltinM)):
            try:
                return self.ext.call(f, args, kw, fr, st)
            except Unsupported as e:
                return self.unknown(f"{getattr(f, 'path', getattr(f, 'name', '?'))}: {e}")
        if isinstance(f, ExtObj):
            return self.ext.call_obj(f, args, kw, fr, st)
        if isinstance(f, Term) and f.op == "opq":
            return self.unknown("call of unknown", f)
        if isinstance(f, LruFn):
            return self.call_lru(f, args, kw, fr, st)
        if isinstance(f, CtxFactory):
            return CtxGen(f.f, list(args), dict(kw))
        return self.unknown("call of " + type(f).__name__ + (" " + vn.show(f) if isinstance(f, Term) else ""))

    MAXDEPTH = 80

    def bind_args(self, f, args, kw, nf, fr, st):
        node, fid = f.node, nf.fid
        a = node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        nf.self_name = pos[0] if pos else None
        b = {}
        rest = list(args)
        for p in pos:
            if rest:
                b[p] = rest.pop(0)
        if rest:
            if a.vararg is None:
                self.raise_exc(ExcVal("TypeError", (string(f"too many arguments for {f.qual}"),), key=f.qual), fr, st, TRUE)
                raise Dead()
        if a.vararg is not None:
            b[a.vararg.arg] = PyTuple(rest)
        extra = {}
        names = set(pos) | {k.arg for k in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in b:
                    self.raise_exc(ExcVal("TypeError", (string(f"duplicate argument {k} for {f.qual}"),), key=f.qual), fr, st, TRUE)
                    raise Dead()
                b[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            b[a.kwarg.arg] = self.new_dict(st, {string(k): (TRUE, v) for k, v in extra.items()})
        elif extra:
            self.raise_exc(ExcVal("TypeError", (string(f"unexpected argument {sorted(extra)} for {f.qual}"),), key=f.qual), fr, st, TRUE)
            raise Dead()
        for p, d in zip(pos[len(pos) - len(f.defaults):], f.defaults):
            if p not in b:
                b[p] = d
        for k in a.kwonlyargs:
            if k.arg not in b and k.arg in f.kwdefaults:
                b[k.arg] = f.kwdefaults[k.arg]
        missing = [p for p in pos + [k.arg for k in a.kwonlyargs] if p not in b]
        if missing:
            self.raise_exc(ExcVal("TypeError", (string(f"missing argument {missing} for {f.qual}"),), key=f.qual), fr, st, TRUE)
            raise Dead()
        for k, v in b.items():
            st.h[("v", fid, k)] = v

    def call_func(self, f, args, kw, fr, st):
        self.calls += 1
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported("recursion")
        node = f.node
        fid = self.new_id()
        nf = Frame(fid, f.qual, f.mod, f)
        nf.closure = f.closure
        nf.cls = f.cls
        st.h[("v0", fid)] = TRUE
        self.bind_args(f, args, kw, nf, fr, st)
        key = (f.mod.path, f.qual)
        self.touched[key] = self.touched.get(key, 0) + 1
        if isinstance(node, ast.FunctionDef) and is_endless(node):
            return self.new_gen(f, nf, fr, st)
        saved = st.pc
        st.pc = TRUE
        self.stack.append(f"{f.qual}")
        gen = isinstance(node, ast.FunctionDef) and is_generator(node)
        if gen:
            st.h[("y", fid)] = GL(())
        try:
            if isinstance(node, ast.Lambda):
                try:
                    v = self.ev(node.body, nf, st)
                    nf.returns.append((st.pc, v, st.copy()))
                except Dead:
                    pass
            else:
                alive = self.exec_block(node.body, nf, st)
                if alive:
                    v = NONE
                    nf.returns.append((st.pc, v, st.copy()))
        finally:
            self.stack.pop()
        raised = getattr(nf, "raised", [])
        for pc, exc, s2 in raised:
            s2.pc = band(saved, pc)
            if s2.pc is FALSE:
                continue
            if fr is None:
                continue
            if fr.sinks:
                fr.sinks[-1].append((s2.pc, exc, s2))
            else:
                fr.__dict__.setdefault("raised", []).append((s2.pc, exc, s2))
        rets = nf.returns
        if not rets:
            raise Dead()
        pc, val, acc = rets[-1]
        for pc2, v2, s2 in reversed(rets[:-1]):
            acc = merge_states(pc2, s2, acc)
            val = vite(pc2, v2, val)
        st.assign(acc)
        st.pc = band(saved, acc.pc)
        if gen:
            val = self.new_iter(st, st.h.pop(("y", fid), GL(())).e)
        if not getattr(nf, "captured", False):
            for k in [k for k in st.h if k[1] == fid and k[0] in VKEYS]:
                del st.h[k]
        return val

    def instantiate(self, cls, args, kw, fr, st):
        if any(isinstance(b, ExtVal) and b.path == "typing.NamedTuple" for b in cls.mro):
            fields, dflt = [], {}
            for c in reversed(cls.mro):
                if isinstance(c, ClassVal):
                    for n, d in c.annotations:
                        fields.append(n)
                        if d is not UNDEF:
                            dflt[n] = d
            return self.ext.fill_tuple(fields, dflt, args, kw, cls, fr, st)
        members = [x for x in cls.attrs.values() if isinstance(x, Obj) and x.cls is cls] if any(
            isinstance(b, ExtVal) and b.path.split(".")[-1] == "Enum" for b in cls.mro) else []
        if members:
            r = None
            for m in reversed(members):
                c = self.truthy(self.equal(st.h[("a", m.id, "value")], args[0], fr, st), fr, st)
                r = (m if c is TRUE else r) if r is None else vite(c, m, r)
            if r is None:
                self.fail("ValueError", "not a member", fr, st)
            return r
        o = self.new_obj(st, cls)
        init = self.find(cls, "__init__")
        eb = self.ext_base(cls)
        if init is None:
            if cls.attrs.get("__dataclass__") is TRUE or eb == "pydantic.BaseModel" or any(
                    isinstance(c, ClassVal) and c.attrs.get("__dataclass__") is TRUE for c in cls.mro):
                self.field_init(o, cls, args, kw, fr, st)
                return o
            if eb is not None:
                self.ext.ext_init(o, eb, args, kw, fr, st)
                return o
            if args or kw:
                self.raise_exc(ExcVal("TypeError", (string(f"{cls.name}() takes no arguments"),)), fr, st, TRUE)
                raise Dead()
            return o
        self.call(Bound(o, init), args, kw, fr, st)
        return o

    def field_init(self, o, cls, args, kw, fr, st):
        fields = {}
        for c in reversed(cls.mro):
            if isinstance(c, ClassVal):
                for n, d in c.annotations:
                    fields[n] = d
        rest = list(args)
        for n, d in fields.items():
            if rest:
                v = rest.pop(0)
            elif n in kw:
                v = kw[n]
            else:
                v = d
            if isinstance(v, ExtObj) and v.path == "field":
                if "default_factory" in v.kw:
                    v = self.call(v.kw["default_factory"], [], {}, fr, st)
                else:
                    v = v.kw.get("default", UNDEF)
            if v is UNDEF:
                self.raise_exc(ExcVal("TypeError", (string("missing field " + n),)), fr, st, TRUE)
                raise Dead()
            self.wr(st, ("a", o.id, n), v)
        if self.ext_base(cls) != "pydantic.BaseModel":
            if rest or any(k not in fields for k in kw):
                self.fail("TypeError", f"{cls.name}() arguments", fr, st)
            post = self.find(cls, "__post_init__")
            if post is not None:
                self.call(Bound(o, post), [], {}, fr, st)

    # -------------------------------------------------------------- jax transformations
    def shape_key(self, v, st):
        if isinstance(v, Cond):
            return ("c", self.shape_key(v.a, st), self.shape_key(v.b, st))
        if isinstance(v, DictRef):
            return ("d",) + tuple((k, self.shape_key(x, st)) for k, (g, x) in self.ddict(st, v).items())
        if isinstance(v, (ListRef, PyTuple)):
            return ("t",) + tuple(self.shape_key(x, st) for _, x in self.iterate(v, None, st))
        if isinstance(v, Obj):
            return ("o", v.id)
        if v is NONE:
            return ("n",)
        try:
            t = self.term(v, st)
        except Unsupported:
            return ("?",)
        if arr.varshape(t):
            return ("v",)
        return arr.shape(t)

    def to_traced(self, v, st):
        if isinstance(v, ArrRef):
            return self.aval(v, st)
        if isinstance(v, DictRef):
            return self.new_dict(st, {k: (g, self.to_traced(x, st)) for k, (g, x) in self.ddict(st, v).items()})
        if isinstance(v, ListRef):
            return self.new_glist(st, [(g, self.to_traced(x, st)) for g, x in self.glist(st, v)])
        if isinstance(v, PyTuple):
            return PyTuple([self.to_traced(x, st) for x in v.vals], v.names, v.cls)
        if isinstance(v, Cond):
            return vite(v.c, self.to_traced(v.a, st), self.to_traced(v.b, st))
        return v

    def call_jit(self, f, args, kw, fr, st):
        inner = f.f
        names = param_names(inner)
        off = 1 if isinstance(inner, Bound) else 0
        pn = names[off:] if names else []
        static = []
        targs, tkw = [], {}
        for k, a in enumerate(args):
            nm = pn[k] if k < len(pn) else None
            if k in f.static_nums or (nm is not None and nm in f.static_names):
                static.append((k, self.canon(a, st)))
                targs.append(a)
            else:
                targs.append(self.to_traced(a, st))
        for k, a in kw.items():
            if k in f.static_names or (k in pn and pn.index(k) in f.static_nums):
                static.append((k, self.canon(a, st)))
                tkw[k] = a
            else:
                tkw[k] = self.to_traced(a, st)
        key = ("jit", f.id, tuple(static), tuple(self.shape_key(a, st) for a in targs), tuple((k, self.shape_key(a, st)) for k, a in sorted(tkw.items())))
        tr = st.h.get(key, UNDEF)
        if isinstance(tr, Trace):
            stale = Trace(tr.wm)
            stale.reads = dict(tr.reads)
            # nested traced functions must not see later allocations as pre-existing
            stale.wm = next(self.ids)
            self.replaying.append(stale)
            try:
                r = self.call(inner, targs, tkw, fr, st)
            finally:
                self.replaying.pop()
            return self.to_traced(r, st)
        t = Trace(next(self.ids))
        self.tracing.append(t)
        try:
            r = self.call(inner, targs, tkw, fr, st)
        finally:
            self.tracing.pop()
        st.h[key] = t
        return self.to_traced(r, st)

    def call_vmap(self, f, args, kw, fr, st):
        axes = f.in_axes
        ax = list(axes.vals) if isinstance(axes, PyTuple) else [axes] * len(args)
        vals = []
        n = None
        conds = []
        for a, x in zip(args, ax):
            if x is NONE:
                vals.append(a)
                continue
            if isinstance(a, (DictRef, Obj)):
                raise Unsupported("vmap over pytree")
            t = self.term(a, st)
            k = vn.cint(x)
            if k == 1:
                t = arr.transpose(t)
            elif k != 0:
                raise Unsupported("vmap axis")
            vals.append(t)
        for j, x in enumerate(ax):
            if x is not NONE and arr.varshape(vals[j]) and vals[j].op == "ite":
                v = vals[j].args[0]

                def alt(val):
                    return [vn.restrict(y, v, val) if isinstance(y, Term) else y for y in vals]
                f0 = VmapFn(f.f, PyTuple([NONE if x is NONE else ZERO for x in ax]), f.out_axes)
                c = vn.atom(v)
                return self.branch(c, lambda s: self.call_vmap(f0, alt(True), kw, fr, s), lambda s: self.call_vmap(f0, alt(False), kw, fr, s), st)
        for j, x in enumerate(ax):
            if x is not NONE:
                if vals[j].op != "seq":
                    if vals[j].op == "opq":
                        return opq("vmap of unknown", vals[j])
                    raise ShapeError("vmap over scalar")
                if n is not None and n != len(vals[j].args):
                    raise ShapeError("vmap sizes differ")
                n = len(vals[j].args)
        outs = []
        for i in range(n):
            outs.append(self.to_traced(self.call(f.f, [v if x is NONE else v.args[i] for v, x in zip(vals, ax)], kw, fr, st), st))
        if not outs:
            return arr.EMPTY

        def stack(vs):
            if isinstance(vs[0], PyTuple):
                return PyTuple([stack([v.vals[k] for v in vs]) for k in range(len(vs[0].vals))])
            return arr.split(lambda *ts: arr.stack(list(ts)))(*[self.term(v, st) for v in vs])
        r = stack(outs)
        if isinstance(f.out_axes, Term) and vn.cint(f.out_axes) == 1:
            r = arr.transpose(r)
        return r

    def call_grad(self, f, args, kw, fr, st):
        k = f.argnum
        x = self.term(args[k], st)
        if arr.varshape(x):
            raise Unsupported("gradient at conditional shape")
        shp = arr.shape(x)
        xs = arr.flat(x)
        self.gdepth += 1
        syms = [vn.sym(f"$g{self.gdepth}_{j}") for j in range(len(xs))]
        try:
            a2 = list(args)
            a2[k] = arr.unflat(syms, shp)
            out = self.call(f.f, a2, kw, fr, st)
        finally:
            self.gdepth -= 1
        aux = None
        if f.has_aux:
            if not isinstance(out, PyTuple):
                out = self.to_traced(out, st)
            if not isinstance(out, PyTuple) or len(out.vals) != 2:
                raise Unsupported("has_aux")
            out, aux = out.vals
        y = self.term(out, st)
        m = dict(zip(syms, xs))
        m.update({frozen(s): x for s, x in zip(syms, xs)})

        def d1(t):
            if t.op == "seq":
                return seq([d1(c) for c in t.args])
            if t.taint:
                return arr.unflat([opq("derivative of unknown", t)] * len(xs), shp)
            return arr.unflat([vn.subst(vn.diff(t, s), m) for s in syms], shp)

        d = arr.split(d1)(y)
        if f.kind == "vg":
            return PyTuple([arr.ew(lambda t: vn.subst(t, m), y), d])
        if f.has_aux:
            aux = subst_val(aux, m, self, st)
            return PyTuple([d, aux])
        return d


def subst_val(v, m, interp, st):
    if isinstance(v, Term):
        return arr_subst(v, m)
    if isinstance(v, PyTuple):
        return PyTuple([subst_val(x, m, interp, st) for x in v.vals])
    if isinstance(v, DictRef):
        return interp.new_dict(st, {k: (g, subst_val(x, m, interp, st)) for k, (g, x) in interp.ddict(st, v).items()})
    return v


def frozen(s):
    """the constant that stands for a differentiation variable under stop_gradient"""
    return vn.sym("$G" + s.args[0][2:])


def arr_subst(t, m):
    return vn.subst(t, m)


@vn.lift
def _cat(a, b):
    if a.op == "str" and b.op == "str":
        return string(a.args[0] + b.args[0])
    if a.op == "str" and a.args[0] == "":
        return b
    if b.op == "str" and b.args[0] == "":
        return a
    t = T("fn", "strcat", a, b)
    vn.STRSYMS.add(t)
    return t


def param_names(f):
    if isinstance(f, Bound):
        return param_names(f.func)
    if isinstance(f, FuncVal):
        a = f.node.args
        return [p.arg for p in a.posonlyargs + a.args] + [k.arg for k in a.kwonlyargs]
    if isinstance(f, JitFn):
        return param_names(f.f)
    if isinstance(f, GradFn):
        n = param_names(f.f)
        return n[1:] if isinstance(f.f, Bound) else n
    return []


def bits(on_int, on_bool):
    def f(a, b):
        if a.op == "num" and b.op == "num":
            if a.args[0].denominator == 1 and b.args[0].denominator == 1:
                return num(on_int(int(a.args[0]), int(b.args[0])))
        return on_bool(a, b)
    return f


DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.MatMult: "matmul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod",
          ast.Pow: "pow", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor", ast.LShift: "lshift", ast.RShift: "rshift"}


def pattern_names(p):
    return [x.name for x in ast.walk(p) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name is not None]


VKEYS = frozenset(("v", "pv", "v0"))
KEYOPS = frozenset(("obj", "cls", "ext"))
PASSIVE_CTX = {"warnings.catch_warnings", "numpy.errstate", "numpy.printoptions", "jax.default_matmul_precision", "jax.disable_jit",
               "jax.experimental.enable_x64", "jax.named_scope", "jax.debug_nans", "traceback", "jax.enable_x64", "jax.default_device",
               "jax.ensure_compile_time_eval", "jax.log_compiles", "jax.checking_leaks", "jax.check_tracer_leaks", "jax.numpy_dtype_promotion",
               "jax.numpy_rank_promotion", "jax.transfer_guard", "jax.profiler.TraceAnnotation", "jax.profiler.StepTraceAnnotation", "jax.profiler.trace",
               "threading.Lock", "threading.RLock", "threading.Semaphore", "threading.Condition", "contextlib.redirect_stdout",
               "contextlib.redirect_stderr", "decimal.localcontext", "tempfile.TemporaryDirectory", "cProfile.Profile"}


@functools.lru_cache(maxsize=None)
def is_generator(node):
    for x in walk_no_nested(node):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False


@functools.lru_cache(maxsize=None)
def is_endless(node):
    """a generator with a loop that only its consumer ends"""
    for x in walk_no_nested(node):
        if isinstance(x, ast.While) and isinstance(x.test, ast.Constant) and x.test.value:
            inner = list(walk_no_nested(x))
            own = list(walk_no_nested(x, (ast.While, ast.For)))
            if any(isinstance(y, ast.Yield) for y in inner) and not any(isinstance(y, ast.Return) for y in inner) and not any(
                    isinstance(y, ast.Break) for y in own):
                return True
    return False


def walk_no_nested(node, stop=()):
    stack = list(node.body)
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef) + stop):
            continue
        stack.extend(ast.iter_child_nodes(x))
