"""Models of everything outside the repository: builtins, numpy, jax, scipy, quadprog, and the
simulation package.  Libraries are either modelled exactly (array algebra) or as uninterpreted
functions of everything their result may depend on (solvers, integrators, random numbers)."""
from __future__ import annotations

from . import vn, arr, nd
from .vn import T, Term, TRUE, FALSE, NONE, ZERO, ONE, num, string, ite, band, bor, bnot, truth, opq, seq
from .arr import Unsupported, ShapeError
from . import interp as I
from .interp import (PyTuple, GL, FuncVal, Bound, ClassVal, ExtVal, ExtObj, ModVal, Obj, ListRef, DictRef, SetRef, ArrRef, Range,
                     JitFn, VmapFn, GradFn, Partial, AtHelper, SliceVal, Cond, ExcVal, BuiltinM, Intrinsic, UNDEF, Dead, vite, BUILTIN_EXC,
                     IterRef, InfIter, LruFn, CtxFactory, InstDict, View)
from .lib import Lib, DequeRef, DefDict

BUILTINS = {
    "len", "range", "enumerate", "zip", "isinstance", "issubclass", "float", "int", "bool", "str", "list", "tuple", "dict", "set", "abs", "min",
    "max", "sum", "any", "all", "print", "getattr", "setattr", "hasattr", "callable", "type", "sorted", "reversed", "map", "filter", "round",
    "id", "iter", "next", "open", "repr", "format", "delattr", "object", "frozenset", "slice", "pow", "divmod", "vars", "property", "staticmethod", "classmethod",
}
EVENTS = ("L", "ev")
EV_FNS = {"np": "numpy", "jnp": "jax.numpy"}

UFUNC1 = {"sin": "sin", "cos": "cos", "tan": "tan", "arccos": "arccos", "arcsin": "arcsin", "arctan": "arctan", "exp": "exp", "log": "log",
          "abs": "abs", "absolute": "abs", "fabs": "abs", "sign": "sign", "floor": "floor", "ceil": "ceil", "tanh": "tanh", "sinh": "sinh", "cosh": "cosh",
          "round": "round", "around": "round", "rint": "round", "acos": "arccos", "asin": "arcsin", "atan": "arctan"}
UFUNC2 = {"add": vn.add, "subtract": vn.sub, "multiply": vn.mul, "divide": vn.div, "true_divide": vn.div, "power": vn.power,
          "less": vn.lt, "less_equal": vn.le, "greater": lambda a, b: vn.lt(b, a), "greater_equal": lambda a, b: vn.le(b, a),
          "equal": vn.eq, "not_equal": lambda a, b: bnot(vn.eq(a, b)),
          "minimum": lambda a, b: vn.minmax("min", [a, b]), "maximum": lambda a, b: vn.minmax("max", [a, b]),
          "fmin": lambda a, b: vn.minmax("min", [a, b]), "fmax": lambda a, b: vn.minmax("max", [a, b]),
          "logical_and": lambda a, b: band(truth(a), truth(b)), "logical_or": lambda a, b: bor(truth(a), truth(b)),
          "arctan2": lambda a, b: vn.fnterm("arctan2", a, b), "hypot": lambda a, b: vn.sqrt(vn.add(vn.mul(a, a), vn.mul(b, b))),
          "mod": lambda a, b: vn.fnterm("mod", a, b), "float_power": vn.power, "pow": vn.power}
REDUCE = {"sum": arr.fsum, "prod": arr.fprod, "min": arr.fmin, "max": arr.fmax, "amin": arr.fmin, "amax": arr.fmax, "any": arr.fany, "all": arr.fall,
          "mean": lambda xs: vn.div(arr.fsum(xs), num(len(xs)))}
VIEWS = {"reshape", "ravel", "squeeze", "expand_dims", "atleast_1d", "atleast_2d", "transpose"}
NUMTYPES = {"float", "int", "float64", "float32", "float_", "double", "int32", "int64", "bool", "bool_", "float16", "single"}
ARR_METHODS = {"copy", "transpose", "dot", "astype", "tolist", "sum", "min", "max", "any", "all", "flatten", "ravel", "reshape", "item", "mean", "prod",
               "squeeze", "clip", "block_until_ready", "conj", "fill", "argsort", "argmin", "argmax", "round", "sort", "repeat", "take", "view", "trace",
               "cumsum", "diagonal", "nonzero", "__len__"}
STR_METHODS = {"format", "join", "split", "startswith", "endswith", "lower", "upper", "strip", "replace", "lstrip", "rstrip", "partition", "rpartition",
               "rsplit", "find", "index", "count", "title", "capitalize", "zfill", "isdigit", "removeprefix", "removesuffix", "splitlines", "encode",
               "isalpha", "isidentifier", "ljust", "rjust", "center", "swapcase", "casefold", "rfind", "isupper", "islower", "isnumeric"}
LIST_METHODS = {"append", "extend", "insert", "pop", "remove", "clear", "copy", "index", "count", "reverse", "sort", "__len__", "__getitem__", "__setitem__", "__contains__",
                "__iter__"}
DEQUE_METHODS = {"appendleft", "popleft", "extendleft", "rotate"}
DICT_METHODS = {"keys", "values", "items", "get", "setdefault", "update", "pop", "copy", "clear", "fromkeys", "popitem", "move_to_end", "__getitem__", "__setitem__",
                "__contains__", "__len__", "most_common", "total"}
SET_METHODS = {"add", "remove", "discard", "copy", "update", "union", "clear", "intersection", "difference", "symmetric_difference", "issubset",
               "issuperset", "isdisjoint", "pop", "difference_update", "intersection_update", "__contains__"}

CONSTS = {
    "safe_autonomy_simulation.entities.integrator.M_DEFAULT": num(1),
    "safe_autonomy_simulation.sims.spacecraft.defaults.M_DEFAULT": num(12),
    "safe_autonomy_simulation.sims.spacecraft.defaults.N_DEFAULT": num(0.001027),
    "safe_autonomy_simulation.sims.spacecraft.defaults.THRUST_CONTROL_LIMIT_DEFAULT": num(1),
}

vn.BOOL_FNS |= {"qp.infeasible", "qp.notpd", "qp.act", "min.ok", "raisesfn"}


class Ext(Lib):
    def __init__(self, interp):
        self.p = interp
        self.consts = dict(CONSTS)
        self.models = {}

    # ------------------------------------------------------------ names
    def builtin(self, name):
        if name in BUILTINS or name in BUILTIN_EXC:
            return ExtVal(name)
        if name in ("__name__", "__file__"):
            return string("module")
        if name == "Ellipsis":
            return Ellipsis
        if name == "NotImplemented":
            return ExtVal(name)
        return None

    ALIASES = {
        "jax.jit": "jax.jit", "jax.numpy": "jax.numpy",
    }

    def attr_path(self, path):
        if path in self.consts:
            return self.consts[path]
        last = path.rsplit(".", 1)[-1]
        root = path.split(".")[0]
        if root in ("numpy", "jax", "math"):
            if last == "pi":
                return vn.PI
            if last in ("inf", "infty", "Inf"):
                return vn.INF
            if last == "nan":
                return T("sym", "nan")
            if last == "newaxis":
                return NONE
            if last == "e" and root in ("numpy", "math"):
                return vn.fn1("exp", ONE)
        return ExtVal(path)

    # ------------------------------------------------------------ attributes of values
    def value_attr(self, o, name, fr, st, default=None):
        p = self.p
        if isinstance(o, (Term, ArrRef)):
            if isinstance(o, Term) and (o.op == "str" or o in vn.STRSYMS) and name in STR_METHODS:
                return BuiltinM(o, name)
            if isinstance(o, Term) and o.op == "none":
                if default is not None:
                    return default
                p.raise_exc(ExcVal("AttributeError", (string(name),), key=name), fr, st, TRUE)
                raise Dead()
            if isinstance(o, Term) and o.op == "opq":
                return p.unknown("attribute " + name, o)
            if isinstance(o, Term) and o.op == "ite" and not arr.varshape(o) and any(l.op in ("none", "opq", "str") for _, l in arr._few_leaves(o)):
                c = vn.atom(o.args[0])
                return p.branch(c, lambda s: self.value_attr(o.args[1], name, fr, s, default), lambda s: self.value_attr(o.args[2], name, fr, s, default), st)
            t = p.term(o, st)
            if name == "shape":
                return self.shape_val(t)
            if name in ("T", "mT"):
                if isinstance(o, ArrRef):
                    v = p.view(o, "T", None, st)
                    if v is not None:
                        return v
                return self.wrap(o, arr.transpose(t), st)
            if name == "flat":
                return self.np_call("ravel", [o], {}, isinstance(o, ArrRef), fr, st)
            if name == "size":
                return arr.split(lambda x: num(len(arr.flat(x))))(t)
            if name == "ndim":
                return arr.split(lambda x: num(len(arr.shape(x))))(t)
            if name == "at" and isinstance(o, ArrRef) and not st.h.get(("Aj", o.id)):
                p.raise_exc(ExcVal("AttributeError", (string("numpy array has no attribute at"),), key="at"), fr, st, TRUE)
                raise Dead()
            if name == "at":
                return AtHelper(t)
            if name == "dtype":
                return ExtVal("numpy.float64")
            if name == "real":
                return o
            if name in ARR_METHODS:
                return BuiltinM(o, name)
            if isinstance(o, Term) and o.op == "ite" and not arr.varshape(o):
                # a conditional of None and something else, ...
                ls = [l for _, l in arr._few_leaves(o)]
                if any(l.op in ("none", "opq") for l in ls):
                    return opq("attribute " + name, o)
            if default is not None:
                return default
            return p.unknown(f"attribute {name} of array")
        if isinstance(o, ListRef) and name in LIST_METHODS or isinstance(o, DictRef) and name in DICT_METHODS or isinstance(o, SetRef) and name in SET_METHODS:
            return BuiltinM(o, name)
        if isinstance(o, DequeRef) and (name in DEQUE_METHODS or name == "maxlen"):
            return BuiltinM(o, name) if name != "maxlen" else NONE if o.maxlen is None else num(o.maxlen)
        if isinstance(o, InstDict) and name in ("get", "update", "items", "keys", "values", "pop", "setdefault", "copy"):
            return BuiltinM(o, name)
        if isinstance(o, (LruFn,)):
            if name == "cache_clear":
                return BuiltinM(o, name)
            if name == "__wrapped__":
                return o.f
        if isinstance(o, (GL, IterRef)) and name in ("__iter__", "__next__"):
            return BuiltinM(o, name)
        if isinstance(o, ExcVal) and name == "with_traceback":
            return Intrinsic("with_traceback", lambda a, k, f, s: o)
        if isinstance(o, (PyTuple,)):
            if o.names and name in o.names:
                return o.vals[o.names.index(name)]
            if o.names and name == "_fields":
                return PyTuple([string(n) for n in o.names])
            if o.names and name in ("_replace", "_asdict"):
                return BuiltinM(o, name)
            if o.cls is not None:
                d = p.find(o.cls, name)
                if d is not None:
                    return p.call(Bound(o, d.get), [], {}, fr, st) if isinstance(d, I.PropertyVal) else Bound(o, d) if isinstance(d, FuncVal) else d
            if name in ("index", "count"):
                return BuiltinM(o, name)
        if isinstance(o, AtHelper) and name in ("set", "add", "multiply", "mul", "min", "max", "get", "divide", "power"):
            return BuiltinM(o, name)
        if isinstance(o, ExcVal):
            if name in ("__class__",):
                return ExtVal(o.name)
            if name == "args":
                return PyTuple(o.args)
            return p.unknown("exception attribute " + name)
        if isinstance(o, ExtObj):
            v = p.rd(st, ("a", o.id, name))
            if v is not UNDEF:
                return v
            return self.extobj_attr(o, name, fr, st, default)
        if isinstance(o, Bound):
            if name == "__self__":
                return o.obj
            if name == "__func__":
                return o.func
            if name == "__name__":
                return string(getattr(o.func, "qual", "?").split(".")[-1])
        if isinstance(o, FuncVal) and name in ("__name__", "__qualname__"):
            return string(o.qual.split(".")[-1])
        if isinstance(o, Range):
            if name in ("start", "stop", "step"):
                return {"start": o.a, "stop": o.b, "step": o.s}[name]
        if isinstance(o, JitFn):
            if name == "__wrapped__":
                return o.f
            if name in ("clear_cache", "_clear_cache"):
                return BuiltinM(o, "clear_cache")
        if isinstance(o, Partial) and name in ("func", "args", "keywords"):
            return {"func": o.f, "args": PyTuple(o.args)}.get(name, NONE)
        if default is not None:
            return default
        return p.unknown(f"attribute {name} of {type(o).__name__}")

    def shape_val(self, t):
        if t.op == "ite" and arr.varshape(t):
            return vite(vn.atom(t.args[0]), self.shape_val(t.args[1]), self.shape_val(t.args[2]))
        return PyTuple([num(d) for d in arr.shape(t)])

    def wrap(self, like, t, st):
        return self.p.new_arr(st, t) if isinstance(like, ArrRef) else t

    def extobj_attr(self, o, name, fr, st, default):
        if o.path in DYN_LINEAR:
            if name in ("A", "B"):
                return self.lin_mat(o, name, st)
            if name in ("step", "compute_state_dot", "state_transition_system", "state_transition_input", "_compute_state_dot"):
                return BuiltinM(o, name)
        if o.path == "minimize":
            if name == "x":
                return o.args[0]
            if name == "success":
                return o.args[1]
            if name == "message":
                return o.args[2]
            if name == "fun":
                return o.args[3]
        if o.path == "ExitStack" and name in ("enter_context", "callback", "push", "close"):
            return BuiltinM(o, name)
        if name in ("sample", "random", "random_base2", "scale", "uniform", "normal", "writerow", "writerows", "write", "close", "now", "strftime", "info",
                    "warning", "error", "debug", "reset"):
            return BuiltinM(o, name)
        if default is not None:
            return default
        return self.p.unknown(f"attribute {name} of {o.path}")

    def lin_mat(self, o, name, st):
        v = o.kw.get(name)
        return v

    # ------------------------------------------------------------ objects inheriting from library classes
    def ext_init(self, o, eb, args, kw, fr, st):
        p = self.p
        if eb in DYN_BASES:
            names = ("trajectory_samples", "state_min", "state_max", "state_dot_min", "state_dot_max", "integration_method", "use_jax")
            vals = {"integration_method": string("RK45"), "use_jax": FALSE}
            if eb.endswith("LinearODEDynamics"):
                names = ("A", "B") + names
            vals.update(dict(zip(names, args)))
            vals.update(kw)
            for k, v in vals.items():
                if k in ("A", "B"):
                    v = p.new_arr(st, p.term(v, st))
                p.wr(st, ("a", o.id, k), v)
            return NONE
        if eb.split(".")[-1] in BUILTIN_EXC:
            p.wr(st, ("a", o.id, "args"), PyTuple(args))
            return NONE
        if eb == "pydantic.BaseModel":
            p.field_init(o, o.cls, args, kw, fr, st)
            return NONE
        if eb in ("object", "abc.ABC", "typing.NamedTuple", "enum.Enum"):
            if args or kw:
                p.raise_exc(ExcVal("TypeError", (string("object.__init__() takes no arguments"),), key="object.__init__"), fr, st, TRUE)
                raise Dead()
            return NONE
        p.unknown("base class " + eb)
        return NONE

    def obj_attr(self, o, eb, name, fr, st):
        p = self.p
        if eb in DYN_BASES and name in ("step", "compute_state_dot", "_compute_state_dot", "state_transition_system", "state_transition_input", "_step"):
            return BuiltinM(o, "dyn:" + name)
        if eb == "pydantic.BaseModel" and name in ("dict", "model_dump", "copy", "model_copy"):
            return BuiltinM(o, "pyd:" + name)
        if eb.split(".")[-1] in BUILTIN_EXC and name == "args":
            return PyTuple(())
        if eb.split(".")[-1] in BUILTIN_EXC or eb in ("pydantic.BaseModel",) or eb in DYN_BASES:
            p.raise_exc(ExcVal("AttributeError", (string(name),), key=name), fr, st, TRUE)
            raise Dead()
        return p.unknown(f"attribute {name} inherited from {eb}")

    # ------------------------------------------------------------ dynamics
    def dyn_step(self, o, args, kw, fr, st):
        p = self.p
        names = ["step_size", "state", "control"]
        b = dict(zip(names, args))
        b.update(kw)
        h = p.term(b["step_size"], st)
        x = p.term(b["state"], st)
        u = p.term(b["control"], st)
        if (p.tracing or p.replaying or p.gdepth) and any(l.op != "num" for t in (h, x, u) for l in arr.flat(t)):
            # the integrators of the simulation package convert to concrete floats and numpy arrays
            p.raise_exc(ExcVal("TypeError", (string("dynamics step of traced values"),)), fr, st, TRUE)
            raise Dead()
        if arr.varshape(x) or arr.varshape(u):
            raise Unsupported("conditional shape in dynamics step")
        n, m = len(arr.flat(x)), len(arr.flat(u))
        xs = seq([vn.sym(f"$ox{k}") for k in range(n)])
        us = seq([vn.sym(f"$ou{k}") for k in range(m)]) if arr.shape(u) else vn.sym("$ou0")
        lam = self.state_dot(o, vn.sym("$ot"), xs, us, fr, st)
        method = string("RK45")
        if isinstance(o, ExtObj):
            method = o.kw.get("integration_method", method)
            lims = [o.kw.get(k, NONE) for k in ("state_min", "state_max", "state_dot_min", "state_dot_max")]
        else:
            def get(k, d):
                v = p.rd(st, ("a", o.id, k))
                return d if v is UNDEF else v
            method = get("integration_method", method)
            lims = [get(k, NONE) for k in ("state_min", "state_max", "state_dot_min", "state_dot_max")]
        lim = seq([p.term(v, st) for v in lims])
        lt = T("lam", lam, p.term(method, st), lim)
        out = seq([vn.fnterm("odestep", num(k), lt, h, *arr.flat(x), *arr.flat(u)) for k in range(n)])
        return PyTuple([p.new_arr(st, out), p.new_arr(st, arr.ew(lambda t: vn.fnterm("odestepdot", t, h), out))])

    def state_dot(self, o, t, x, u, fr, st):
        p = self.p
        if isinstance(o, ExtObj):
            A, B = p.term(o.kw["A"], st), p.term(o.kw["B"], st)
            return arr.add(arr.matmul(A, x), arr.matmul(B, u))
        f = p.find(o.cls, "_compute_state_dot")
        if f is not None:
            return p.term(p.call(Bound(o, f), [t, x, u], {}, fr, st), st)
        a = self.dyn_part(o, "state_transition_system", x, fr, st)
        b = self.dyn_part(o, "state_transition_input", x, fr, st)
        return arr.add(a, arr.matmul(b, u))

    def dyn_part(self, o, name, x, fr, st):
        p = self.p
        f = p.find(o.cls, name)
        if f is not None:
            return p.term(p.call(Bound(o, f), [x], {}, fr, st), st)
        A = p.rd(st, ("a", o.id, "A" if name.endswith("system") else "B"))
        if A is UNDEF:
            raise Unsupported("dynamics without " + name)
        return arr.matmul(p.term(A, st), x) if name.endswith("system") else p.term(A, st)

    # ------------------------------------------------------------ calls
    def call_obj(self, f, args, kw, fr, st):
        return self.p.unknown("call of " + f.path)

    def call(self, f, args, kw, fr, st):
        if isinstance(f, BuiltinM):
            return self.method(f.recv, f.name, list(args), dict(kw), fr, st)
        path = f.path
        if "." in path and any(isinstance(a, IterRef) for a in args) and not path.startswith(("itertools.", "collections.", "functools.", "operator.", "csv.")):
            args = [self.p.settle(a, st) for a in args]
        if path in self.models:
            return self.models[path](args, kw, fr, st)
        if path in I.PASSIVE_CTX and "." in path:
            if path == "numpy.errstate" and any(isinstance(v, Term) and v.op == "s" and v.args[0] not in ("ignore", "warn", "print", "log") for v in list(args) + list(kw.values())):
                raise Unsupported("floating point errors as exceptions")
            return f
        if path.startswith("logging."):
            if path in ("logging.getLogger", "logging.LoggerAdapter") or path.endswith(".getChild"):
                return ExtVal("logging.Logger")
            if path.endswith((".isEnabledFor", ".hasHandlers")):
                return FALSE
            if path.endswith((".StreamHandler", ".NullHandler", ".Formatter", ".FileHandler")):
                return ExtVal("logging.Handler")
            return NONE
        if path.startswith("threading.") and path.rsplit(".", 1)[0] in I.PASSIVE_CTX and path.rsplit(".", 1)[-1] in ("acquire", "release", "notify", "notify_all"):
            return TRUE if path.endswith("acquire") else NONE
        if "." not in path:
            return self.call_builtin(path, list(args), dict(kw), fr, st)
        root, last = path.split(".")[0], path.rsplit(".", 1)[-1]
        for pre, npy in (("numpy.", True), ("jax.numpy.", False)):
            if path.startswith(pre):
                return self.np_call(path[len(pre):], list(args), dict(kw), npy, fr, st)
        if root == "math":
            return self.np_call(last, list(args), dict(kw), False, fr, st)
        if root == "jax":
            return self.jax_call(path[4:], list(args), dict(kw), fr, st)
        m = getattr(self, "x_" + path.replace(".", "_"), None)
        if m is not None:
            return m(list(args), dict(kw), fr, st)
        if root == "operator":
            return self.operator(last, list(args), dict(kw), fr, st)
        if path.endswith("integrator.PointMassIntegratorDynamics"):
            return self.point_mass(args, kw, fr, st)
        if path in DYN_LINEAR:
            d = dict(zip(("A", "B", "trajectory_samples", "state_min", "state_max", "state_dot_min", "state_dot_max", "integration_method", "use_jax"), args))
            d.update(kw)
            for k in ("A", "B"):
                d[k] = self.p.new_arr(st, self.p.term(d[k], st))
            return ExtObj(path, (), d, self.p.new_id())
        if path in ("typing.cast",):
            return args[1]
        if path == "typing.TypeVar":
            return f
        return self.p.unknown("call of " + path)

    def point_mass(self, args, kw, fr, st):
        d = dict(zip(("m", "damping", "mode"), args))
        d.update(kw)
        p = self.p
        m = p.term(d.pop("m", ONE), st)
        dm = p.term(d.pop("damping", ZERO), st)
        mode = d.pop("mode", string("1d"))
        k = {"1d": 1, "2d": 2, "3d": 3}.get(mode.args[0] if isinstance(mode, Term) and mode.op == "str" else None)
        if k is None:
            raise Unsupported("mode")
        z, inv = ZERO, vn.div(ONE, m)
        A = [[ONE if j == i + k else z for j in range(2 * k)] for i in range(k)] + [[vn.neg(dm) if j == i + k else z for j in range(2 * k)] for i in range(k)]
        B = [[z] * k for _ in range(k)] + [[inv if i == j else z for j in range(k)] for i in range(k)]
        d["A"] = p.new_arr(st, seq([seq(r) for r in A]))
        d["B"] = p.new_arr(st, seq([seq(r) for r in B]))
        return ExtObj("safe_autonomy_simulation.dynamics.LinearODEDynamics", (), d, p.new_id())

    # ------------------------------------------------------------ events
    def event(self, st, kind, *vals):
        p = self.p
        ev = p.rd(st, EVENTS)
        e = ev.e if isinstance(ev, GL) else ()
        p.wr(st, EVENTS, GL(e + ((TRUE, PyTuple([string(kind)] + list(vals))),)))

    def x_warnings_warn(self, args, kw, fr, st):
        w = args[0] if args else NONE
        cls = string(w.cls.name if isinstance(w, Obj) else "UserWarning")
        if isinstance(w, ClassVal):
            cls = string(w.name)
        self.event(st, "warn", cls, w if isinstance(w, Term) else NONE)
        return NONE

    def x_warnings_simplefilter(self, args, kw, fr, st):
        return NONE

    x_warnings_filterwarnings = x_warnings_simplefilter

    def x_functools_partial(self, args, kw, fr, st):
        return Partial(args[0], list(args[1:]), kw)

    def x_functools_reduce(self, args, kw, fr, st):
        p = self.p
        e = list(p.iterate(args[1], fr, st))
        if any(g is not TRUE for g, _ in e):
            raise Unsupported("reduce over guarded list")
        vals = [v for _, v in e]
        acc = args[2] if len(args) > 2 else vals.pop(0)
        for v in vals:
            acc = p.call(args[0], [acc, v], {}, fr, st)
        return acc

    def x_collections_OrderedDict(self, args, kw, fr, st):
        return self.call_builtin("dict", args, kw, fr, st)

    x_typing_OrderedDict = x_collections_OrderedDict

    def x_collections_OrderedDict_fromkeys(self, args, kw, fr, st):
        return self.dict_fromkeys(args, st, fr)

    def x_dict_fromkeys(self, args, kw, fr, st):
        return self.dict_fromkeys(args, st, fr)

    def x_copy_copy(self, args, kw, fr, st):
        v = args[0]
        if isinstance(v, Cond):
            return vite(v.c, self.x_copy_copy([v.a], kw, fr, st), self.x_copy_copy([v.b], kw, fr, st))
        if isinstance(v, SetRef):
            return SetRef(self.p.new_glist(st, self.p.iterate(v, fr, st)).id)
        if isinstance(v, Obj) and self.p.ext_base(v.cls) is None and self.p.find(v.cls, "__copy__") is None:
            o = self.p.new_obj(st, v.cls)
            for k in self.p.inst(InstDict(v), st):
                self.p.wr(st, ("a", o.id, k[2]), self.p.rd(st, k))
            return o
        if isinstance(v, ListRef):
            return self.p.new_glist(st, self.p.glist(st, v))
        if isinstance(v, DictRef):
            return self.p.new_dict(st, self.p.ddict(st, v))
        if isinstance(v, ArrRef):
            return self.p.new_arr(st, self.p.aval(v, st))
        if isinstance(v, (Term, PyTuple)):
            return v
        raise Unsupported("copy.copy")

    def x_copy_deepcopy(self, args, kw, fr, st):
        return self.deepcopy(args[0], st)

    def deepcopy(self, v, st):
        p = self.p
        if isinstance(v, ListRef):
            return p.new_glist(st, [(g, self.deepcopy(x, st)) for g, x in p.glist(st, v)])
        if isinstance(v, DictRef):
            return p.new_dict(st, {k: (g, self.deepcopy(x, st)) for k, (g, x) in p.ddict(st, v).items()})
        if isinstance(v, ArrRef):
            return p.new_arr(st, p.aval(v, st))
        if isinstance(v, PyTuple):
            return PyTuple([self.deepcopy(x, st) for x in v.vals], v.names)
        if isinstance(v, Cond):
            return vite(v.c, self.deepcopy(v.a, st), self.deepcopy(v.b, st))
        if isinstance(v, (Term, FuncVal, ClassVal, ExtVal)):
            return v
        if isinstance(v, SetRef):
            return SetRef(p.new_glist(st, p.iterate(v, None, st)).id)
        raise Unsupported("deepcopy of " + type(v).__name__)

    def dict_fromkeys(self, args, st, fr):
        p = self.p
        val = args[1] if len(args) > 1 else NONE
        d = {}
        for g, k in p.iterate(args[0], fr, st):
            p.dict_put(d, p.dkey(k, st), val, g)
        return p.new_dict(st, d)

    def x_os_path_join(self, args, kw, fr, st):
        return self.p.str_concat([x for a in args for x in (self.p.to_str(a, fr, st), string("/"))][:-1])

    def x_os_path_exists(self, args, kw, fr, st):
        t = T("fn", "raisesfn", string("exists"), self.p.term_or_opq(args[0], st))
        return truth(t)

    x_os_path_isdir = x_os_path_exists

    def x_os_makedirs(self, args, kw, fr, st):
        self.event(st, "mkdir", args[0])
        return NONE

    x_os_mkdir = x_os_makedirs

    def x_csv_writer(self, args, kw, fr, st):
        return ExtObj("csv.writer", args[:1], {}, self.p.new_id())

    def x_datetime_datetime_now(self, args, kw, fr, st):
        return ExtObj("datetime.now", (), {}, self.p.new_id())

    def x_time_time(self, args, kw, fr, st):
        return self.fresh(st, "time")

    x_time_perf_counter = x_time_time
    x_time_monotonic = x_time_time
    x_time_process_time = x_time_time
    x_time_perf_counter_ns = x_time_time
    x_time_time_ns = x_time_time
    x_time_thread_time = x_time_time

    def fresh(self, st, kind, *args):
        """an environment input: the n-th value drawn from `kind`"""
        p = self.p
        key = ("L", "rnd")
        c = p.rd(st, key)
        n = c if isinstance(c, Term) else ZERO
        p.wr(st, key, vn.add(n, ONE))
        if kind == "uniform":
            lo, hi = args if len(args) == 2 else (ZERO, ONE)
            e = vn.fnterm("env", string("unit"), n)
            vn.UNIT.add(e)
            return vn.add(lo, vn.mul(e, vn.sub(hi, lo)))
        if kind == "normal":
            mu, sg = args if len(args) == 2 else (ZERO, ONE)
            return vn.add(mu, vn.mul(sg, vn.fnterm("env", string("gauss"), n)))
        t = vn.fnterm("env", string(kind), n, *args)
        if kind == "lhs":
            vn.UNIT.add(t)
        return t

    # ------------------------------------------------------------ scipy / quadprog
    def x_scipy_linalg_solve_continuous_are(self, args, kw, fr, st):
        p = self.p
        ts = [p.term(a, st) for a in args]
        n = len(ts[0].args)
        key = T("are", *ts)
        return p.new_arr(st, seq([seq([vn.fnterm("are", num(min(i, j)), num(max(i, j)), key) for j in range(n)]) for i in range(n)]))

    x_scipy_linalg_solve_discrete_are = x_scipy_linalg_solve_continuous_are

    def x_scipy_linalg_block_diag(self, args, kw, fr, st):
        p = self.p
        ms = [p.term(a, st) for a in args]
        w = sum(len(m.args[0].args) for m in ms)
        rows, off = [], 0
        for m in ms:
            k = len(m.args[0].args)
            for r in m.args:
                rows.append(seq([ZERO] * off + list(r.args) + [ZERO] * (w - off - k)))
            off += k
        return p.new_arr(st, seq(rows))

    def x_scipy_linalg_inv(self, args, kw, fr, st):
        return self.np_call("linalg.inv", args, kw, True, fr, st)

    def x_scipy_stats_qmc_LatinHypercube(self, args, kw, fr, st):
        d = dict(kw)
        if args:
            d["d"] = args[0]
        return ExtObj("qmc.LHS", (), d, self.p.new_id())

    x_scipy_stats_qmc_Sobol = x_scipy_stats_qmc_LatinHypercube
    x_scipy_stats_qmc_Halton = x_scipy_stats_qmc_LatinHypercube

    def x_scipy_stats_qmc_scale(self, args, kw, fr, st):
        p = self.p
        s, lo, hi = (p.term(a, st) for a in args[:3])
        return p.new_arr(st, arr.add(arr.mul(s, arr.sub(hi, lo)), lo))

    def x_quadprog_solve_qp(self, args, kw, fr, st):
        p = self.p
        names = ("G", "a", "C", "b", "meq", "factorized")
        d = dict(zip(names, args))
        d.update(kw)
        G, a = p.term(d["G"], st), p.term(d["a"], st)
        C = p.term(d["C"], st) if d.get("C", NONE) is not NONE else arr.EMPTY
        b = p.term(d["b"], st) if d.get("b", NONE) is not NONE else arr.EMPTY
        meq = p.term(d.get("meq", ZERO), st)
        fac = p.term(d.get("factorized", FALSE), st)
        if any(arr.varshape(t) for t in (G, a, C, b)):
            return self.qp_split(d, G, a, C, b, fr, st)
        if vn.cint(meq) != 0 or fac is not FALSE:
            raise Unsupported("solve_qp with equality constraints")
        n = len(a.args)
        rows = []
        if b.args:
            if len(C.args) != n or len(C.args[0].args) != len(b.args):
                raise ShapeError("solve_qp shapes")
            for j in range(len(b.args)):
                rows.append(seq([C.args[i].args[j] for i in range(n)] + [b.args[j]]))
        key = qp_key(G, a, seq(rows))
        pd = all(vn.is_num(x) or not x.taint for x in arr.flat(G))
        G_ok = all((G.args[i].args[j] is ZERO) if i != j else
                   (G.args[i].args[i].op == "num" and G.args[i].args[i].args[0] > 0 or vn._strictly_positive(G.args[i].args[i]))
                   for i in range(n) for j in range(n))
        bad = FALSE if G_ok else lift_truth("qp.notpd", G)
        inf = lift_truth("qp.infeasible", key)
        if bad is not FALSE:
            p.raise_exc(ExcVal("ValueError", (string("matrix G is not positive definite"),), key="qp"), fr, st, bad)
            st.pc = band(st.pc, bnot(bad))
        p.raise_exc(ExcVal("ValueError", (string("constraints are inconsistent, no solution"),), key="qp"), fr, st, inf)
        st.pc = band(st.pc, bnot(inf))
        x = p.new_arr(st, seq([vn.fnterm("qp.x", num(k), key) for k in range(n)]))
        act = []
        lag = []
        for j, r in enumerate(rows):
            act.append((qp_active(r, key), num(j + 1)))
            lag.append(vn.fnterm("qp.lag", r, key))
        iact = p.new_glist(st, [(g, v) for g, v in act if g is not FALSE])
        return PyTuple([x, vn.fnterm("qp.f", key), p.new_arr(st, seq([vn.fnterm("qp.unc", num(k), G, a) for k in range(n)])),
                        p.new_arr(st, seq([vn.fnterm("qp.it", key), ZERO])), p.new_arr(st, seq(lag)), iact])

    def qp_split(self, d, G, a, C, b, fr, st):
        p = self.p
        v = vn.min_atom(*[t for t in (G, a, C, b) if arr.varshape(t)])

        def go(val):
            return lambda s: self.x_quadprog_solve_qp(
                [], {**d, "G": vn.restrict(G, v, val), "a": vn.restrict(a, v, val), "C": vn.restrict(C, v, val), "b": vn.restrict(b, v, val)}, fr, s)
        return p.branch(vn.atom(v), go(True), go(False), st)

    def x_scipy_optimize_minimize(self, args, kw, fr, st):
        p = self.p
        names = ("fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds", "constraints", "tol", "callback", "options")
        d = dict(zip(names, args))
        d.update(kw)
        x0 = p.term(d["x0"], st)
        n = len(x0.args)
        xs = [vn.sym(f"$m{k}") for k in range(n)]
        xv = seq(xs)

        def tup(a):
            if a is None:
                return []
            if isinstance(a, PyTuple):
                return list(a.vals)
            return [a]

        def ev(f, a):
            """value and effect of calling back into the program"""
            s2 = st.copy()
            r = p.term(p.call(f, [p.new_arr(s2, xv)] + tup(a), {}, fr, s2), s2)
            for k2, v2 in s2.h.items():     # jit caches filled by the callback persist
                if k2[0] == "jit":
                    st.h[k2] = v2
            return r

        f = ev(d["fun"], d.get("args"))
        f = sub_scalar(f)
        try:            # an additive constant does not move the minimiser
            f = vn.add(f, vn.neg(vn.subst(f, {x: ZERO for x in xs})))
        except Exception:
            pass
        cons = []
        cl = d.get("constraints")
        if isinstance(cl, DictRef):
            cl = GL([(TRUE, cl)])
        if cl is not None and cl is not NONE:
            for g, c in p.iterate(cl, fr, st):
                def one(c):
                    if isinstance(c, Cond):
                        return ite(c.c, one(c.a), one(c.b))
                    dd = p.ddict(st, c)
                    typ = p.term(dd[string("type")][1], st)
                    a = dd.get(string("args"))
                    v = ev(dd[string("fun")][1], a[1] if a else None)
                    j = dd.get(string("jac"))
                    jac = ev(j[1], a[1] if a else None) if j and j[1] is not NONE else seq([vn.diff(v, x) for x in xs]) if v.op != "seq" else opq("jac")
                    return T("con", typ, v, jac)
                cons.append((g, one(c)))
        bl = d.get("bounds")
        bs = []
        if bl is not None and bl is not NONE:
            for g, b in p.iterate(bl, fr, st):
                lo, hi = [p.term(v, st) for _, v in p.iterate(b, fr, st)]
                lo = vn.neg(vn.INF) if lo is NONE else lo
                hi = vn.INF if hi is NONE else hi
                bs.append(seq([lo, hi]))
            if len(bs) != n:
                p.raise_exc(ExcVal("ValueError", (string("bounds length"),), key="minimize"), fr, st, TRUE)
                raise Dead()
        method = p.term(d.get("method", NONE), st)
        opts = p.term_or_opq(d.get("options", NONE), st)
        tol = p.term(d.get("tol", NONE), st)
        key = min_key(f, x0, seq(bs), method, opts, tol, tuple(cons))
        ok = lift_truth("min.ok", key)
        msg = vn.fnterm("min.msg", key)
        for _, l in arr._few_leaves(msg):
            vn.STRSYMS.add(l)
        x = p.new_arr(st, seq([vn.fnterm("min.x", num(k), key) for k in range(n)]))
        return ExtObj("minimize", (x, ok, msg, vn.fnterm("min.f", key)), {}, p.new_id())

    # ------------------------------------------------------------ jax
    def jax_call(self, name, args, kw, fr, st):
        p = self.p
        if name == "jit":
            f = args[0] if args else kw.get("fun")
            if f is None:
                return Partial(ExtVal("jax.jit"), [], kw)

            def names(v):
                if v is None or v is NONE:
                    return set()
                if isinstance(v, Term) and v.op == "str":
                    return {v.args[0]}
                return {x.args[0] for _, x in p.iterate(v, fr, st)}

            def nums(v):
                if v is None or v is NONE:
                    return set()
                if isinstance(v, Term) and v.op == "num":
                    return {vn.cint(v)}
                return {vn.cint(x) for _, x in p.iterate(v, fr, st)}
            sn, si = names(kw.get("static_argnames")), nums(kw.get("static_argnums"))
            return JitFn(p.new_id(), f, sn, si)
        if name == "vmap":
            ax = args[1] if len(args) > 1 else kw.get("in_axes", ZERO)
            if isinstance(ax, ListRef):
                ax = PyTuple([v for _, v in p.iterate(ax, fr, st)])
            oa = args[2] if len(args) > 2 else kw.get("out_axes", ZERO)
            return VmapFn(args[0], ax, oa)
        if name in ("grad", "jacfwd", "jacrev", "jacobian", "value_and_grad"):
            an = args[1] if len(args) > 1 else kw.get("argnums", ZERO)
            k = vn.cint(an) if isinstance(an, Term) else None
            if k is None:
                raise Unsupported("argnums")
            aux = kw.get("has_aux", FALSE)
            return GradFn("vg" if name == "value_and_grad" else name, args[0], k, aux is TRUE)
        if name in ("lax.cond",):
            c = p.truthy(args[0], fr, st)
            ops = [p.to_traced(a, st) for a in args[3:]]
            if "operand" in kw:
                ops = [kw["operand"]]
            return p.branch(c, lambda s: p.to_traced(p.call(args[1], ops, {}, fr, s), s), lambda s: p.to_traced(p.call(args[2], ops, {}, fr, s), s), st)
        if name in ("lax.select", "numpy.where"):
            return arr.where(*[p.term(a, st) for a in args])
        if name == "lax.fori_loop":
            v = p.to_traced(args[3], st)
            for g, i in p.iterate(Range(p.term(args[0], st), p.term(args[1], st), ONE), fr, st):
                w = p.to_traced(p.call(args[2], [i, v], {}, fr, st), st)
                v = vite(g, w, v)
            return v
        if name == "lax.while_loop":
            v, k = p.to_traced(args[2], st), 0

            def loop(v, s, k):
                c = p.truthy(p.call(args[0], [v], {}, fr, s), fr, s)
                if c is FALSE:
                    return v
                if c is not TRUE:
                    k += 1
                    if k > I.UNROLL_SYMBOLIC:
                        p.notes.append(f"loop bound {I.UNROLL_SYMBOLIC} in while_loop")
                        return v
                return p.branch(c, lambda q: loop(p.to_traced(p.call(args[1], [v], {}, fr, q), q), q, k), lambda q: v, s)
            return loop(v, st, 0)
        if name == "lax.switch":
            fs = [f for _, f in p.iterate(args[1], fr, st)]
            ops = [p.to_traced(a, st) for a in args[2:]]
            i = p.term(args[0], st)

            def sw(k, s):
                if k == len(fs) - 1:
                    return p.to_traced(p.call(fs[k], ops, {}, fr, s), s)
                return p.branch(vn.le(i, num(k)), lambda q: p.to_traced(p.call(fs[k], ops, {}, fr, q), q), lambda q: sw(k + 1, q), s)
            return sw(0, st)
        if name == "lax.map":
            return p.call_vmap(VmapFn(args[0], ZERO, ZERO), [args[1]], {}, fr, st)
        if name == "hessian":
            return GradFn("jacfwd", GradFn("grad", args[0], 0, False), 0, False)
        if name in ("checkpoint", "remat"):
            return args[0]
        if name in ("tree_util.tree_map", "tree_map", "tree.map"):
            return self.tree_map(args[0], args[1:], fr, st)
        if name in ("tree_util.tree_leaves", "tree_leaves", "tree.leaves"):
            return p.new_list(st, self.tree_leaves(args[0], fr, st))
        if name in ("debug.print", "debug.callback"):
            return NONE
        if name == "jvp":
            f, xs, ts = args[0], self.plain(args[1], fr, st, "jvp"), self.plain(args[2], fr, st, "jvp")
            y = p.to_traced(p.call(f, xs, {}, fr, st), st)
            d = None
            for k, t in enumerate(ts):
                J = p.term(p.call_grad(GradFn("jacfwd", f, k, False), xs, {}, fr, st), st)
                v = self.contract(J, p.term(t, st))
                d = v if d is None else arr.add(d, v)
            return PyTuple([y, d])
        if name == "vjp":
            f, xs = args[0], list(args[1:])
            y = p.to_traced(p.call(f, xs, {}, fr, st), st)
            Js = [p.term(p.call_grad(GradFn("jacrev", f, k, False), xs, {}, fr, st), st) for k in range(len(xs))]

            def pull(a, k, f_, s):
                ct = p.term(a[0], s)
                return PyTuple([self.contract_left(ct, J) for J in Js])
            return PyTuple([y, Intrinsic("vjp", pull)])
        if name.startswith("nn."):
            t = p.term(args[0], st)
            if name == "nn.relu":
                return arr.ew(lambda x: vn.minmax("max", [x, ZERO]), t)
            if name == "nn.sigmoid":
                return arr.ew(lambda x: vn.div(ONE, vn.add(ONE, vn.fn1("exp", vn.neg(x)))), t)
            if name == "nn.softplus":
                return arr.ew(lambda x: vn.fn1("log", vn.add(ONE, vn.fn1("exp", x))), t)
        if name == "lax.scan":
            f, c, xs = args[0], p.to_traced(args[1], st), args[2] if len(args) > 2 else kw.get("xs", NONE)
            ys = []
            if xs is NONE:
                k = vn.cint(p.term(kw.get("length", args[3] if len(args) > 3 else NONE), st))
                if k is None:
                    raise Unsupported("scan length")
                its = [(TRUE, NONE)] * k
            elif isinstance(xs, (PyTuple, DictRef, ListRef)):
                n = {len(p.term(x, st).args) for x in self.tree_leaves(xs, fr, st)}
                if len(n) != 1:
                    raise Unsupported("scan over unequal leaves")
                its = [(TRUE, self.tree_map(Intrinsic("at", lambda a, k, f_, s, j=j: p.term(a[0], s).args[j]), [xs], fr, st)) for j in range(n.pop())]
            else:
                its = p.iterate(p.to_traced(xs, st), fr, st)
            if kw.get("reverse", FALSE) is TRUE:
                its = list(reversed(list(its)))
            for g, x in its:
                if g is not TRUE:
                    raise Unsupported("scan over guarded list")
                r = p.call(f, [c, x], {}, fr, st)
                c, y = [v for _, v in p.iterate(r, fr, st)]
                c = p.to_traced(c, st)
                ys.append(y)
            if kw.get("reverse", FALSE) is TRUE:
                ys.reverse()

            def stack(vs):
                if isinstance(vs[0], PyTuple):
                    return PyTuple([stack([v.vals[k] for v in vs]) for k in range(len(vs[0].vals))])
                if vs[0] is NONE:
                    return NONE
                return arr.stack([p.term(v, st) for v in vs])
            return PyTuple([c, stack(ys) if ys else NONE])
        if name == "lax.stop_gradient" and p.gdepth:
            return self.tree_map(Intrinsic("freeze", lambda a, k, f_, s: arr.split(lambda y: arr.ew(
                lambda x: vn.subst(x, {v: I.frozen(v) for v in x.fv if v.op == "sym" and v.args[0].startswith("$g")}), y))(p.term(a[0], s))), [args[0]], fr, st)
        if name in ("lax.stop_gradient", "block_until_ready", "device_put"):
            return args[0]
        if name == "device_get":
            return p.new_arr(st, p.term(args[0], st))
        if name.startswith("config"):
            return NONE
        if name == "experimental.ode.odeint":
            return self.odeint(args, kw, fr, st)
        if name.startswith("lax."):
            return self.np_call(name[4:], args, kw, False, fr, st)
        return p.unknown("jax." + name)

    def tree_leaves(self, v, fr, st):
        p = self.p
        if v is NONE:
            return []
        if isinstance(v, PyTuple):
            return [x for y in v.vals for x in self.tree_leaves(y, fr, st)]
        if isinstance(v, ListRef):
            return [x for y in self.plain(v, fr, st, "tree") for x in self.tree_leaves(y, fr, st)]
        if isinstance(v, DictRef):
            d = p.ddict(st, v)
            return [x for k in sorted(d, key=lambda t: str(t.args[0])) for x in self.tree_leaves(d[k][1], fr, st)]
        return [v]

    def tree_map(self, f, trees, fr, st):
        p, v = self.p, trees[0]
        if v is NONE:
            return NONE
        if isinstance(v, PyTuple):
            return PyTuple([self.tree_map(f, [t.vals[k] for t in trees], fr, st) for k in range(len(v.vals))], v.names, v.cls)
        if isinstance(v, ListRef):
            cols = [self.plain(t, fr, st, "tree_map") for t in trees]
            return p.new_list(st, [self.tree_map(f, list(xs), fr, st) for xs in zip(*cols)])
        if isinstance(v, DictRef):
            ds = [p.ddict(st, t) for t in trees]
            return p.new_dict(st, {k: (g, self.tree_map(f, [d[k][1] for d in ds], fr, st)) for k, (g, _) in ds[0].items()})
        return p.call(f, list(trees), {}, fr, st)

    def contract(self, J, t):
        """sum over the trailing axes of J against t"""
        if t.op != "seq":
            return arr.mul(J, t)
        n = len(arr.shape(t))
        return nd.tensordot(J, t, n)

    def contract_left(self, ct, J):
        if ct.op != "seq":
            return arr.mul(ct, J)
        return nd.tensordot(ct, J, len(arr.shape(ct)))

    def odeint(self, args, kw, fr, st):
        p = self.p
        f, y0, t = args[0], p.term(args[1], st), p.term(args[2], st)
        extra = [p.to_traced(a, st) for a in args[3:]]
        n = len(y0.args)
        ys = seq([vn.sym(f"$ox{k}") for k in range(n)])
        lam = p.term(p.call(f, [ys, vn.sym("$ot")] + extra, {}, fr, st), st)
        key = T("lam", lam, string("odeint"), NONE)
        rows = [y0]
        for k in range(1, len(t.args)):
            rows.append(seq([vn.fnterm("odeint", num(j), key, vn.sub(t.args[k], t.args[0]), *y0.args) for j in range(n)]))
        return seq(rows)

    # ------------------------------------------------------------ numpy
    def axis(self, kw, args, k, default=None):
        a = kw.get("axis", args[k] if len(args) > k else None)
        if a is None or a is NONE:
            return default
        c = vn.cint(a) if isinstance(a, Term) else None
        if c is None:
            raise Unsupported("axis")
        return c

    def dims(self, v, st, fr):
        p = self.p
        if isinstance(v, Cond):
            raise Unsupported("conditional shape")
        if isinstance(v, (PyTuple, ListRef, ArrRef)) or isinstance(v, Term) and v.op == "seq":
            r = [vn.cint(p.term(x, st)) for _, x in p.iterate(v, fr, st)]
        else:
            r = [vn.cint(p.term(v, st))]
        if any(x is None for x in r):
            raise Unsupported("symbolic dimension")
        if any(x < 0 for x in r):
            raise ShapeError("negative dimension")
        return r

    def np_call(self, name, args, kw, npy, fr, st):
        p = self.p
        args = [p.settle(a, st) for a in args]
        if npy and name in VIEWS and args and isinstance(args[0], ArrRef) and not kw.get("copy"):
            v = self.as_view(name, args, kw, fr, st)
            if v is not None:
                return v
        r = self.np_pure(name, args, kw, npy, fr, st)
        dt = kw.get("dtype", args[1] if name in ("array", "asarray", "zeros", "ones", "empty") and len(args) > 1 else None)
        if dt is not None and isinstance(r, Term):
            r = self.cast(r, dt)
            if npy and self.dtype_kind(dt) == "int" and kw.get("out") is None:
                v = p.new_arr(st, r)
                if isinstance(v, ArrRef):
                    st.h[("Ad", v.id)] = "int"
                return v
        out = kw.get("out")
        if isinstance(r, Term) and npy:
            if isinstance(out, ArrRef):
                p.aset(out, (), r, st)
                return out
            return p.new_arr(st, r)
        return r

    def dtype_kind(self, dt):
        n = dt.path.split(".")[-1] if isinstance(dt, ExtVal) else dt.args[0] if isinstance(dt, Term) and dt.op == "str" else ""
        return "int" if n.startswith(("int", "uint")) else "bool" if n.startswith("bool") else "float" if n.startswith(("float", "double", "single")) else None

    def cast(self, t, dt):
        k = self.dtype_kind(dt)
        if k == "int":
            return arr.split(lambda y: arr.ew(lambda x: vn.fn1("int", boolnum(x)), y))(t)
        if k == "bool":
            return arr.split(lambda y: arr.ew(truth, y))(t)
        if k == "float":
            return arr.split(lambda y: arr.ew(boolnum, y))(t)
        return t

    def as_view(self, name, args, kw, fr, st):
        """numpy functions whose result shares memory with their argument"""
        p, o = self.p, args[0]
        t = p.aval(o, st)
        if arr.varshape(t):
            return None
        if name == "transpose":
            return p.view(o, "T", None, st) if len(args) == 1 and not kw and len(arr.shape(t)) <= 2 else None
        if name in ("atleast_1d", "atleast_2d") and len(args) > 1:
            return None
        r = self.np_pure(name, args, kw, True, fr, st)
        if not isinstance(r, Term) or arr.varshape(r) or r.op != "seq":
            return None
        return p.view(o, "reshape", arr.shape(r), st)

    def np_pure(self, name, args, kw, npy, fr, st):
        p = self.p
        tm = lambda k: p.term(args[k], st)
        # ---- dimension-dependent choices on conditional integers
        for k, a in enumerate(args):
            if isinstance(a, Term) and a.op == "ite" and name in ("zeros", "ones", "empty", "eye", "linspace", "identity", "arange"):
                v = a.args[0]
                alt = lambda val: [vn.restrict(x, v, val) if isinstance(x, Term) else x for x in args]
                return ite(vn.atom(v), self.np_pure(name, alt(True), kw, npy, fr, st), self.np_pure(name, alt(False), kw, npy, fr, st))
        r = self.np_more(name, args, kw, npy, fr, st)
        if r is not None:
            return r
        if name in ("array", "asarray", "copy", "ascontiguousarray", "asanyarray", "float64", "float32", "nan_to_num"):
            v = args[0] if args else kw.get("object", kw.get("a"))
            if npy and name in ("asarray", "asanyarray", "ascontiguousarray") and isinstance(v, ArrRef):
                return v
            if npy and name == "array" and isinstance(v, ArrRef) and kw.get("copy", TRUE) is FALSE:
                return v
            t = p.term(v, st)
            if t.op == "seq" and len({arr.shape(x) for x in t.args}) > 1 and not t.taint:
                raise ShapeError("inhomogeneous array")
            return t
        if name in ("zeros", "ones", "empty"):
            d = self.dims(args[0] if args else kw["shape"], st, fr)
            return arr.full(d, ONE if name == "ones" else ZERO)
        if name == "full":
            return arr.full(self.dims(args[0], st, fr), tm(1))
        if name in ("zeros_like", "ones_like", "empty_like", "full_like"):
            fill = {"zeros_like": ZERO, "ones_like": ONE, "empty_like": ZERO}.get(name)
            if fill is None:
                fill = tm(1)
            return arr.split(lambda x: arr.full(list(arr.shape(x)), fill))(tm(0))
        if name in ("eye", "identity"):
            n = vn.cint(tm(0))
            if n is None:
                raise Unsupported("symbolic eye")
            m = vn.cint(tm(1)) if len(args) > 1 else n
            return arr.eye(n, m)
        if name == "diag":
            return arr.diag(tm(0))
        if name == "linspace":
            n = vn.cint(p.term(args[2] if len(args) > 2 else kw.get("num", num(50)), st))
            if n is None:
                raise Unsupported("linspace")
            if kw.get("endpoint", TRUE) is FALSE:
                return seq(list(arr.linspace(tm(0), tm(1), n + 1).args[:-1]))
            return arr.linspace(tm(0), tm(1), n)
        if name == "arange":
            a = [tm(k) for k in range(len(args))]
            lo, hi, s = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
            if all(vn.is_num(x) for x in (lo, hi, s)) and s.args[0] > 0:
                out, x = [], lo.args[0]
                while x < hi.args[0] and len(out) < 2000:
                    out.append(num(x))
                    x += s.args[0]
                return seq(out)
            return p.seq_of(list(p.iter_range(Range(lo, hi, s))))
        if name in ("concatenate", "vstack", "hstack", "stack", "column_stack", "row_stack", "block"):
            v = args[0] if args else kw.get("arrays", kw.get("tup"))
            if name == "block":
                raise Unsupported("block")
            e = p.iterate(v, fr, st)
            if any(g is not TRUE for g, _ in e):
                return self.guarded_cat(name, e, self.axis(kw, args, 1, 0), st)
            ts = [p.term(x, st) for _, x in e]
            if not ts:
                raise ShapeError("need at least one array")
            if name == "concatenate":
                ax = NONE if kw.get("axis", args[1] if len(args) > 1 else ZERO) is NONE else 0
                return arr.concatenate(ts, None if ax is NONE else self.axis(kw, args, 1, 0))
            if name in ("vstack", "row_stack"):
                return arr.vstack2(*ts)
            if name == "hstack":
                return arr.hstack2(*ts)
            if name == "column_stack":
                return arr.split(lambda *xs: arr.concatenate([x if len(arr.shape(x)) > 1 else seq([seq([e]) for e in arr.flat(x)]) for x in xs], 1))(*ts)
            ax = self.axis(kw, args, 1, 0)
            return arr.split(lambda *xs: arr.stack(list(xs), ax))(*ts)
        if name == "append":
            return arr.append(tm(0), tm(1), axis=self.axis(kw, args, 2, None))
        if name == "insert":
            t, k, v = tm(0), vn.cint(tm(1)), tm(2)
            if k is None or v.op == "seq" or len(arr.shape(t)) != 1:
                raise Unsupported("insert")
            its = list(t.args)
            its.insert(k, v)
            return seq(its)
        if name in ("dot", "matmul", "inner", "vdot"):
            a, b = tm(0), tm(1)
            if name == "matmul":
                return arr.matmul(a, b)
            if name == "vdot":
                return arr.split(lambda x, y: arr.dot(seq(arr.flat(x)), seq(arr.flat(y))))(a, b)
            if name == "inner":
                return arr.split(lambda x, y: arr.dot(x, arr.transpose(y)) if len(arr.shape(y)) == 2 else arr.dot(x, y))(a, b)
            return arr.dot(a, b)
        if name == "outer":
            a, b = tm(0), tm(1)
            return seq([seq([vn.mul(x, y) for y in arr.flat(b)]) for x in arr.flat(a)])
        if name == "cross":
            return arr.cross(tm(0), tm(1))
        if name == "transpose":
            return arr.transpose(tm(0))
        if name == "reshape":
            return arr.reshape(tm(0), self.sdims(args[1] if len(args) > 1 else kw["shape"], st, fr))
        if name in ("ravel",):
            return arr.split(lambda t: seq(arr.flat(t)))(tm(0))
        if name == "atleast_1d":
            return arr.split(lambda t: t if t.op == "seq" else seq([t]))(tm(0))
        if name == "atleast_2d":
            return arr.split(lambda t: t if len(arr.shape(t)) >= 2 or t is arr.EMPTY else seq([t]) if t.op == "seq" else seq([seq([t])]))(tm(0))
        if name == "expand_dims":
            ax = self.axis(kw, args, 1, 0)
            path = (arr.NewAxis,) if ax == 0 else (("sl", NONE, NONE, NONE), arr.NewAxis)
            return arr.index(tm(0), path)
        if name == "broadcast_to":
            d = tuple(self.dims(args[1], st, fr))
            return arr.split(lambda t: arr.broadcast_to(t, d))(tm(0))
        if name == "tile":
            t, k = tm(0), vn.cint(tm(1)) if isinstance(args[1], Term) else None
            if k is None or len(arr.shape(t)) > 1:
                raise Unsupported("tile")
            return seq(arr.flat(t) * k)
        if name == "repeat":
            t, k = tm(0), vn.cint(tm(1))
            if k is None or len(arr.shape(t)) > 1:
                raise Unsupported("repeat")
            return seq([x for x in arr.flat(t) for _ in range(k)])
        if name in REDUCE:
            t = tm(0)
            ax = self.axis(kw, args, 1, None)
            if kw.get("keepdims", FALSE) is not FALSE:
                raise Unsupported("keepdims")
            return arr.reduce_axis(REDUCE[name], t, ax)
        if name == "count_nonzero":
            return arr.reduce_axis(lambda xs: arr.fsum([ite(truth(x), ONE, ZERO) for x in xs]), tm(0), None)
        if name == "cumsum":
            out, s = [], ZERO
            for x in tm(0).args:
                s = arr.add(s, x)
                out.append(s)
            return seq(out)
        if name == "sqrt":
            return arr.ew(vn.sqrt, tm(0))
        if name == "square":
            return arr.ew(lambda x: vn.mul(x, x), tm(0))
        if name == "negative":
            return arr.neg(tm(0))
        if name == "reciprocal":
            return arr.ew(lambda x: vn.div(ONE, x), tm(0))
        if name in ("deg2rad", "radians"):
            return arr.ew(lambda x: vn.div(vn.mul(x, vn.PI), num(180)), tm(0))
        if name in ("rad2deg", "degrees"):
            return arr.ew(lambda x: vn.div(vn.mul(x, num(180)), vn.PI), tm(0))
        if name in UFUNC1:
            f = UFUNC1[name]
            return arr.ew(lambda x: vn.fn1(f, x), tm(0))
        if name in UFUNC2:
            return arr.ew(UFUNC2[name], tm(0), tm(1))
        if name == "logical_not":
            return arr.ew(lambda x: bnot(truth(x)), tm(0))
        if name == "clip":
            d = dict(zip(("x", "lo", "hi"), args))
            lo = d.get("lo", kw.get("a_min", kw.get("min", NONE)))
            hi = d.get("hi", kw.get("a_max", kw.get("max", NONE)))
            x = d.get("x", kw.get("a", kw.get("arr", kw.get("x"))))
            if not npy and any(isinstance(v, (ListRef, PyTuple)) for v in (x, lo, hi)):
                p.raise_exc(ExcVal("TypeError", (string("clip requires ndarray or scalar arguments"),), key="clip of list"), fr, st, TRUE)
            lo, hi = p.term(lo, st), p.term(hi, st)
            return clip3(p.term(x, st), lo, hi)
        if name in ("where", "select"):
            if len(args) != 3:
                raise Unsupported("where with one argument")
            return arr.where(tm(0), tm(1), tm(2))
        if name == "linalg.norm":
            o = kw.get("ord", args[1] if len(args) > 1 else NONE)
            if o is not NONE and not (isinstance(o, Term) and vn.cint(o) == 2 and len(arr.shape(tm(0))) == 1):
                if o is vn.INF:
                    return arr.reduce_axis(lambda xs: arr.fmax([vn.fn1("abs", x) for x in xs]), tm(0), None)
                if isinstance(o, Term) and vn.cint(o) == 1:
                    return arr.reduce_axis(lambda xs: arr.fsum([vn.fn1("abs", x) for x in xs]), tm(0), None)
                raise Unsupported("norm order")
            return arr.norm(tm(0), self.axis(kw, args, 2, None))
        if name == "linalg.inv":
            t = tm(0)
            n = len(t.args)
            if all(t.args[i].args[j] is ZERO for i in range(n) for j in range(n) if i != j):
                return seq([seq([vn.div(ONE, t.args[i].args[i]) if i == j else ZERO for j in range(n)]) for i in range(n)])
            if n == 2:
                (a, b), (c, d) = t.args[0].args, t.args[1].args
                det = vn.sub(vn.mul(a, d), vn.mul(b, c))
                return seq([seq([vn.div(d, det), vn.div(vn.neg(b), det)]), seq([vn.div(vn.neg(c), det), vn.div(a, det)])])
            key = T("mat", t)
            return seq([seq([vn.fnterm("inv", num(i), num(j), key) for j in range(n)]) for i in range(n)])
        if name == "linalg.solve":
            A, b = tm(0), tm(1)
            inv = self.np_pure("linalg.inv", [A], {}, npy, fr, st)
            return arr.matmul(inv, b)
        if name == "argsort":
            return arr.argsort(tm(0))
        if name == "sort":
            t = tm(0)
            return arr.index(t, (arr.argsort(t),))
        if name in ("argmin", "argmax"):
            t = tm(0)
            if len(arr.shape(t)) != 1:
                raise Unsupported(name)
            r = vn.fnterm(name, *t.args)
            for _, l in arr._few_leaves(r):
                vn.BOUNDS[l] = (0, len(t.args) - 1)
            return r
        if name == "delete":
            t = tm(0)
            idx = args[1]
            ax = self.axis(kw, args, 2, None)
            if isinstance(idx, SliceVal):
                drop = set(arr.clamp_slice(p.term(idx.lo, st), p.term(idx.hi, st), p.term(idx.st, st), len(t.args)))
            else:
                i = p.term(idx, st)
                ks = [vn.cint(x) for x in (i.args if i.op == "seq" else [i])]
                if any(k is None for k in ks):
                    raise Unsupported("delete")
                drop = {k % len(t.args) for k in ks}
            if ax in (0, None) and (ax == 0 or len(arr.shape(t)) == 1):
                return seq([x for k, x in enumerate(t.args) if k not in drop])
            if ax == 1:
                if isinstance(idx, SliceVal):
                    drop = set(arr.clamp_slice(p.term(idx.lo, st), p.term(idx.hi, st), p.term(idx.st, st), len(t.args[0].args)))
                return seq([seq([x for k, x in enumerate(r.args) if k not in drop]) for r in t.args])
            raise Unsupported("delete")
        if name in ("isnan", "isinf"):
            return arr.ew(lambda x: x if x.taint else FALSE, tm(0))
        if name in ("isfinite",):
            return arr.ew(lambda x: x if x.taint else TRUE, tm(0))
        if name in ("array_equal",):
            a, b = tm(0), tm(1)
            if arr.shape(a) != arr.shape(b):
                return FALSE
            return arr.fall(arr.flat(arr.ew(vn.eq, a, b)))
        if name in ("isclose", "allclose"):
            rt = p.term(kw.get("rtol", args[2] if len(args) > 2 else num(1e-5)), st)
            at = p.term(kw.get("atol", args[3] if len(args) > 3 else num(1e-8)), st)
            r = arr.ew(lambda a, b: vn.le(vn.fn1("abs", vn.sub(a, b)), vn.add(at, vn.mul(rt, vn.fn1("abs", b)))), tm(0), tm(1))
            return r if name == "isclose" else arr.fall(arr.flat(r))
        if name in ("take",):
            return arr.index(tm(0), (tm(1),))
        if name == "flip":
            t = tm(0)
            return seq(list(reversed(t.args)))
        if name.startswith("random."):
            k = name.split(".")[1]
            if k == "seed":
                return NONE
            ts = [p.term(a, st) for a in args]
            size = kw.get("size")
            if size is None and k in ("uniform", "normal") and len(args) > 2:
                size, ts = args[2], ts[:2]
            if k in ("rand", "randn"):
                d = [vn.cint(t) for t in ts]
                ts = []
            elif k in ("random", "random_sample") and ts:
                d = self.dims(args[0], st, fr)
                ts = []
            elif size is not None and size is not NONE:
                d = self.dims(size, st, fr)
            else:
                d = None
            if any(t.op == "seq" for t in ts):
                shp = arr.broadcast_shape(*[arr.shape(t) for t in ts])
                ts = [arr.broadcast_to(t, shp) for t in ts]
                return arr._ew(lambda *xs: self.fresh(st, k, *xs), ts)
            if d is None:
                return self.fresh(st, k, *ts)
            n = 1
            for x in d:
                n *= x
            return arr.unflat([self.fresh(st, k, *ts) for _ in range(n)], tuple(d))
        if name in NUMTYPES:
            return tm(0)
        if name == "ndim":
            return arr.split(lambda x: num(len(arr.shape(x))))(tm(0))
        if name == "shape":
            return self.shape_val(tm(0))
        if name == "size":
            return arr.split(lambda x: num(len(arr.flat(x))))(tm(0))
        if name in ("set_printoptions", "seterr"):
            return NONE
        if name in ("isscalar",):
            v = args[0]
            return TRUE if isinstance(v, Term) and v.op != "seq" and v is not NONE else FALSE
        if name == "vectorize":
            raise Unsupported("vectorize")
        raise Unsupported("numpy function " + name)

    # ------------------------------------------------------------ rank-generic numpy
    def ints(self, v, st, fr):
        """python ints out of an int, list or tuple value (nested)"""
        p = self.p
        if isinstance(v, (PyTuple, ListRef, GL)) or isinstance(v, ArrRef) or isinstance(v, Term) and v.op == "seq":
            return [self.ints(x, st, fr) for _, x in p.iterate(v, fr, st)]
        k = vn.cint(p.term(v, st))
        if k is None:
            raise Unsupported("symbolic integer argument")
        return k

    def nested(self, v, st, fr):
        p = self.p
        if isinstance(v, (ListRef, PyTuple, GL)):
            e = p.iterate(v, fr, st)
            if any(g is not TRUE for g, _ in e):
                raise Unsupported("guarded list")
            return [self.nested(x, st, fr) for _, x in e]
        return p.term(v, st)

    def np_more(self, name, args, kw, npy, fr, st):
        """numpy functions of any rank; None when not handled here"""
        p = self.p
        tm = lambda k: p.term(args[k], st)

        def opt(k, key, default=None):
            v = kw.get(key, args[k] if len(args) > k else None)
            return default if v is None or v is NONE else v

        def iopt(k, key, default=None):
            v = opt(k, key)
            return default if v is None else self.ints(v, st, fr)

        def tlist(k):
            e = p.iterate(args[k], fr, st)
            if any(g is not TRUE for g, _ in e):
                raise Unsupported("guarded list")
            return [p.term(x, st) for _, x in e]
        if name == "pad":
            mode = p.term(opt(2, "mode", string("constant")), st)
            return nd.pad(tm(0), self.ints(args[1], st, fr), mode.args[0], p.term(kw.get("constant_values", ZERO), st))
        if name == "roll":
            return nd.roll(tm(0), iopt(1, "shift"), iopt(2, "axis"))
        if name in ("flip", "flipud", "fliplr"):
            ax = iopt(1, "axis") if name == "flip" else 0 if name == "flipud" else 1
            return nd.flip(tm(0), None if ax is None else [ax] if isinstance(ax, int) else ax)
        if name == "rot90":
            return nd.flip(nd.transpose(tm(0)), [0])
        if name == "tile":
            r = iopt(1, "reps")
            return nd.tile(tm(0), [r] if isinstance(r, int) else r)
        if name == "repeat":
            k = iopt(1, "repeats")
            if not isinstance(k, int):
                raise Unsupported("repeat")
            return nd.repeat(tm(0), k, iopt(2, "axis"))
        if name == "expand_dims":
            ax = iopt(1, "axis", 0)
            t = tm(0)
            for a in ([ax] if isinstance(ax, int) else sorted(ax)):
                t = nd.expand(t, a)
            return t
        if name == "squeeze":
            return nd.squeeze(tm(0), iopt(1, "axis"))
        if name in ("transpose", "permute_dims"):
            return nd.transpose(tm(0), iopt(1, "axes"))
        if name == "swapaxes":
            return nd.swapaxes(tm(0), iopt(1, "axis1"), iopt(2, "axis2"))
        if name == "moveaxis":
            return nd.moveaxis(tm(0), iopt(1, "source"), iopt(2, "destination"))
        if name == "matrix_transpose":
            return nd.swapaxes(tm(0), -1, -2)
        if name in ("stack", "dstack"):
            v = args[0] if args else kw.get("arrays")
            e = p.iterate(v, fr, st)
            if all(g is TRUE for g, _ in e) and e:
                ts = [p.term(x, st) for _, x in e]
                if name == "dstack":
                    return nd.stack([t if len(arr.shape(t)) == 2 else seq([t]) for t in ts], 2)
                return nd.stack(ts, iopt(1, "axis", 0))
            return None
        if name in ("split", "array_split", "hsplit", "vsplit"):
            t = tm(0)
            ax = {"hsplit": 1 if len(arr.shape(t)) > 1 else 0, "vsplit": 0}.get(name)
            ax = iopt(2, "axis", 0) if ax is None else ax
            out = nd.pieces(t, iopt(1, "indices_or_sections"), ax, name != "array_split")
            return p.new_list(st, [p.new_arr(st, x) if npy else x for x in out])
        if name == "unstack":
            return PyTuple(list(tm(0).args))
        if name == "block":
            return nd.block(self.nested(args[0], st, fr))
        if name in ("triu", "tril"):
            return nd.tri(tm(0), iopt(1, "k", 0), name == "triu")
        if name == "tri":
            n = iopt(0, "N")
            return nd.tri(arr.full([n, iopt(1, "M", n)], ONE), iopt(2, "k", 0), False)
        if name in ("diag", "diagonal", "diagflat"):
            return nd.diag(tm(0), iopt(1, "offset" if name == "diagonal" else "k", 0))
        if name == "trace":
            return arr.split(lambda t: arr.fsum(nd.diag(t, iopt(1, "offset", 0)).args))(tm(0))
        if name in ("eye", "identity"):
            n = iopt(0, "N" if name == "eye" else "n")
            m, k = iopt(1, "M", n), iopt(2, "k", 0)
            return nd.build((n, m), lambda i: ONE if i[1] - i[0] == k else ZERO)
        if name == "kron":
            return nd.kron(tm(0), tm(1))
        if name == "einsum":
            s = args[0]
            if not (isinstance(s, Term) and s.op == "str"):
                raise Unsupported("einsum")
            return nd.einsum(s.args[0], [p.term(a, st) for a in args[1:]])
        if name == "tensordot":
            return nd.tensordot(tm(0), tm(1), iopt(2, "axes", 2))
        if name in ("linalg.multi_dot",):
            ts = tlist(0)
            r = ts[0]
            for t in ts[1:]:
                r = arr.matmul(r, t)
            return r
        if name == "linalg.matrix_power":
            k, t = iopt(1, "n"), tm(0)
            r = arr.eye(len(t.args))
            if k < 0:
                raise Unsupported("negative matrix power")
            for _ in range(k):
                r = arr.matmul(r, t)
            return r
        if name == "linalg.det":
            return arr.split(lambda t: nd.det([list(r.args) for r in t.args]))(tm(0))
        if name == "diff":
            if iopt(1, "n", 1) != 1:
                raise Unsupported("diff order")
            return nd.diff(tm(0), iopt(2, "axis", -1))
        if name in ("cumsum", "cumprod", "nancumsum"):
            return nd.accumulate(tm(0), vn.mul if name == "cumprod" else vn.add, iopt(1, "axis"))
        if name in REDUCE or name in ("var", "std", "nansum", "nanmin", "nanmax", "ptp", "average", "median") or name == "count_nonzero" and "axis" in kw:
            if kw.get("where") is not None or kw.get("initial") is not None or kw.get("weights") is not None:
                raise Unsupported("reduction options")
            ax = iopt(1, "axis")
            keep = kw.get("keepdims", FALSE) is TRUE
            f = REDUCE.get({"nansum": "sum", "nanmin": "min", "nanmax": "max", "average": "mean"}.get(name, name))
            if name in ("var", "std"):
                if kw.get("ddof") is not None:
                    raise Unsupported("ddof")

                def f(xs):
                    m = vn.div(arr.fsum(xs), num(len(xs)))
                    q = vn.div(arr.fsum([vn.mul(vn.sub(x, m), vn.sub(x, m)) for x in xs]), num(len(xs)))
                    return q if name == "var" else vn.sqrt(q)
            elif name == "ptp":
                f = lambda xs: vn.sub(arr.fmax(xs), arr.fmin(xs))
            elif name == "count_nonzero":
                f = lambda xs: arr.fsum([ite(truth(x), ONE, ZERO) for x in xs])
            elif name == "median":
                raise Unsupported("median")
            if name in ("sum", "mean", "prod"):
                f0 = f
                f = lambda xs: f0([boolnum(x) for x in xs])
            return nd.reduce(f, tm(0), None if ax is None else [ax] if isinstance(ax, int) else ax, keep)
        head, _, tail = name.rpartition(".")
        if tail in ("reduce", "accumulate", "outer") and head in UFUNC2:
            op = UFUNC2[head]
            if tail == "outer":
                a, b = tm(0), tm(1)
                return nd.build(arr.shape(a) + arr.shape(b), lambda i: op(nd.at(a, i[:len(arr.shape(a))]), nd.at(b, i[len(arr.shape(a)):])))
            ax = iopt(1, "axis", 0)
            if tail == "accumulate":
                return nd.accumulate(tm(0), op, ax)

            def red(xs):
                if not xs:
                    if head in ("logical_or", "add"):
                        return FALSE if head == "logical_or" else ZERO
                    if head in ("logical_and", "multiply"):
                        return TRUE if head == "logical_and" else ONE
                    raise ShapeError("reduction of empty")
                r = xs[0]
                for x in xs[1:]:
                    r = op(r, x)
                return truth(r) if head.startswith("logical") else r
            if args[1:2] == [NONE] or kw.get("axis") is NONE:
                return arr.reduce_axis(red, tm(0), None)
            return nd.reduce(red, tm(0), [ax], kw.get("keepdims", FALSE) is TRUE)
        if name == "take":
            ax = iopt(2, "axis")
            idx = p.term(args[1], st)
            t = tm(0)
            if ax is None:
                return arr.index(seq(arr.flat(t)), (idx,))
            r = len(arr.shape(t))
            ax = nd.norm_axis(ax, r)
            return arr.index(t, (("sl", NONE, NONE, NONE),) * ax + (idx,))
        if name in ("heaviside",):
            return arr.ew(lambda x, h: ite(vn.lt(x, ZERO), ZERO, ite(vn.lt(ZERO, x), ONE, h)), tm(0), tm(1))
        if name == "copysign":
            return arr.ew(lambda x, y: ite(vn.lt(y, ZERO), vn.neg(vn.fn1("abs", x)), vn.fn1("abs", x)), tm(0), tm(1))
        if name == "logical_xor":
            return arr.ew(lambda a, b: ite(truth(a), bnot(truth(b)), truth(b)), tm(0), tm(1))
        if name in ("atan2",):
            return arr.ew(UFUNC2["arctan2"], tm(0), tm(1))
        if name in ("floor_divide",):
            return p.arith(I.ast.FloorDiv(), tm(0), tm(1))
        if name in ("remainder", "mod"):
            return p.arith(I.ast.Mod(), tm(0), tm(1))
        if name == "fmod":
            def fm(a, b):
                q = vn.fn1("int", vn.div(a, b))
                return vn.sub(a, vn.mul(b, q))
            return arr.ew(fm, tm(0), tm(1))
        if name in ("trunc", "fix"):
            return arr.ew(lambda x: vn.fn1("int", x), tm(0))
        if name in ("real", "conj", "conjugate", "copy_", "require", "asfarray"):
            return tm(0)
        if name == "cbrt":
            return arr.ew(lambda x: vn.fnterm("cbrt", x), tm(0))
        if name == "exp2":
            return arr.ew(lambda x: vn.power(num(2), x), tm(0))
        if name == "log2":
            return arr.ew(lambda x: vn.div(vn.fn1("log", x), vn.fn1("log", num(2))), tm(0))
        if name == "log10":
            return arr.ew(lambda x: vn.div(vn.fn1("log", x), vn.fn1("log", num(10))), tm(0))
        if name == "log1p":
            return arr.ew(lambda x: vn.fn1("log", vn.add(x, ONE)), tm(0))
        if name == "expm1":
            return arr.ew(lambda x: vn.sub(vn.fn1("exp", x), ONE), tm(0))
        if name == "fsum":
            return arr.fsum([x for t in tlist(0) for x in arr.flat(t)])
        if name == "dist":
            d = arr.sub(tm(0), tm(1))
            return arr.norm(d)
        if name == "hypot" and len(args) != 2:
            return arr.norm(seq([tm(k) for k in range(len(args))]))
        if name == "sumprod":
            return arr.dot(tm(0), tm(1))
        if name == "polyval":
            c, x = tm(0), tm(1)
            r = ZERO
            for a in c.args:
                r = arr.add(arr.mul(r, x), a)
            return r
        if name == "select" and len(args) >= 2 and isinstance(args[0], (ListRef, PyTuple)):
            cs, vs = tlist(0), tlist(1)
            r = p.term(opt(2, "default", ZERO), st)
            for c, v in reversed(list(zip(cs, vs))):
                r = arr.where(c, v, r)
            return r
        if name in ("nonzero", "flatnonzero", "argwhere") or name == "where" and len(args) == 1:
            t = tm(0)
            bs = [truth(x) for x in arr.flat(t)]
            if len(arr.shape(t)) != 1:
                raise Unsupported("nonzero of rank > 1")
            r = p.seq_of([(b, num(k)) for k, b in enumerate(bs) if b is not FALSE])
            if name == "argwhere":
                raise Unsupported("argwhere")
            r = p.new_arr(st, r) if npy else r
            return r if name == "flatnonzero" else PyTuple([r])
        if name in ("compress", "extract"):
            return arr.index(tm(1), (arr.split(lambda t: seq([truth(x) for x in arr.flat(t)]))(tm(0)),))
        if name == "isin":
            b = arr.flat(tm(1))
            return arr.ew(lambda x: arr.fany([vn.eq(x, y) for y in b]), tm(0))
        if name == "vectorize":
            f = args[0]
            return Intrinsic("vectorized", lambda a, k, fr2, s2: arr.ew(lambda *xs: p.term(p.call(f, list(xs), {}, fr2, s2), s2), *[p.term(x, s2) for x in a]))
        if name == "apply_along_axis":
            f, ax, t = args[0], self.ints(args[1], st, fr), tm(2)
            s = arr.shape(t)
            ax = nd.norm_axis(ax, len(s))
            if len(s) != 2:
                raise Unsupported("apply_along_axis rank")
            rows = [p.term(p.call(f, [r] + list(args[3:]), {}, fr, st), st) for r in (t.args if ax == 1 else arr.transpose(t).args)]
            r = seq(rows)
            return r if ax == 1 or r.args[0].op != "seq" else arr.transpose(r)
        if name == "fill_diagonal":
            t = tm(0)
            v = tm(1)
            n = min(arr.shape(t))
            p.aset(args[0], (), nd.build(arr.shape(t), lambda i: (v if v.op != "seq" else v.args[i[0]]) if i[0] == i[1] else nd.at(t, i)), st)
            return NONE
        if name == "copyto":
            t = tm(0)
            p.aset(args[0], (), arr.broadcast_to(tm(1), arr.shape(t)), st)
            return NONE
        if name == "put":
            raise Unsupported("put")
        if name == "ix_":
            ts = [p.term(a, st) for a in args]
            return PyTuple([arr.unflat(arr.flat(t), tuple(len(t.args) if j == k else 1 for j in range(len(ts)))) for k, t in enumerate(ts)])
        if name == "meshgrid":
            ts = [p.term(a, st) for a in args]
            if len(ts) != 2:
                raise Unsupported("meshgrid")
            x, y = ts
            ij = kw.get("indexing") is not None and kw["indexing"].args[0] == "ij"
            a = seq([x for _ in y.args])
            b = seq([seq([v] * len(x.args)) for v in y.args])
            out = [arr.transpose(a), arr.transpose(b)] if ij else [a, b]
            return p.new_list(st, [p.new_arr(st, t) if npy else t for t in out])
        if name == "ndindex":
            d = self.ints(args[0], st, fr) if len(args) == 1 else [self.ints(a, st, fr) for a in args]
            d = [d] if isinstance(d, int) else d
            return GL([(TRUE, PyTuple([num(k) for k in i])) for i in nd.product(*[range(x) for x in d])])
        if name == "ndenumerate":
            t = tm(0)
            return GL([(TRUE, PyTuple([PyTuple([num(k) for k in i]), nd.at(t, i)])) for i in nd.product(*[range(x) for x in arr.shape(t)])])
        if name in ("argmin", "argmax") and (iopt(1, "axis") is not None or len(arr.shape(tm(0))) != 1):
            t, ax = tm(0), iopt(1, "axis")
            if ax is None:
                return self.np_pure(name, [seq(arr.flat(t))], {}, npy, fr, st)
            r = len(arr.shape(t))
            if nd.norm_axis(ax, r) == r - 1 and r == 2:
                return seq([self.np_pure(name, [x], {}, npy, fr, st) for x in t.args])
            if nd.norm_axis(ax, r) == 0 and r == 2:
                return seq([self.np_pure(name, [x], {}, npy, fr, st) for x in arr.transpose(t).args])
            if r == 1:
                return None
            raise Unsupported(name)
        if name in ("argsort", "sort") and args:
            t = tm(0)
            if all(vn.is_num(x) for x in arr.flat(t)) and len(arr.shape(t)) == 1:
                o = sorted(range(len(t.args)), key=lambda k: t.args[k].args[0])
                return seq([num(k) for k in o]) if name == "argsort" else seq([t.args[k] for k in o])
            if name == "argsort" and kw.get("descending") is TRUE:
                raise Unsupported("descending argsort")
            r = len(arr.shape(t))
            if r == 2:
                ax = nd.norm_axis(iopt(1, "axis", -1), r)
                f = lambda x: self.np_pure(name, [x], {}, npy, fr, st)
                return seq([f(x) for x in t.args]) if ax == 1 else arr.transpose(seq([f(x) for x in arr.transpose(t).args]))
            return None
        if name == "top_k":
            t, k = tm(0), self.ints(args[1], st, fr)
            o = self.np_pure("argsort", [arr.neg(t)], {}, npy, fr, st)
            o = seq(list(o.args[:k]))
            return PyTuple([arr.index(t, (o,)), o])
        if name == "unique":
            t = tm(0)
            if all(vn.is_num(x) for x in arr.flat(t)) and len(kw) == 0:
                return seq([num(x) for x in sorted({x.args[0] for x in arr.flat(t)})])
            raise Unsupported("unique")
        if name == "interp":
            x, xp, fp = tm(0), tm(1), tm(2)

            def one(v):
                r = fp.args[-1]
                for k in range(len(xp.args) - 2, -1, -1):
                    a, b = xp.args[k], xp.args[k + 1]
                    y = vn.add(fp.args[k], vn.mul(vn.div(vn.sub(v, a), vn.sub(b, a)), vn.sub(fp.args[k + 1], fp.args[k])))
                    r = ite(vn.lt(v, b), y, r)
                return ite(vn.lt(v, xp.args[0]), fp.args[0], r)
            return arr.ew(one, x)
        if name == "reshape" and kw.get("order") is not None:
            o = kw["order"]
            if isinstance(o, Term) and o.op == "str" and o.args[0] == "F":
                d = self.ints(args[1] if len(args) > 1 else kw["shape"], st, fr)
                d = [d] if isinstance(d, int) else d
                return nd.transpose(arr.reshape(nd.transpose(tm(0)), d[::-1]))
            return None
        if name in ("dynamic_slice", "slice"):
            t, a = tm(0), [p.term(x, st) for _, x in p.iterate(args[1], fr, st)] if not (isinstance(args[1], Term) and args[1].op != "seq") else [tm(1)]
            sz = self.ints(args[2], st, fr)
            sz = [sz] if isinstance(sz, int) else sz
            if name == "slice":
                sz = [e - vn.cint(s0) for s0, e in zip(a, sz)]
            return self.dyn_slice(t, a, sz)
        if name == "dynamic_slice_in_dim":
            t, k, n, ax = tm(0), tm(1), self.ints(args[2], st, fr), iopt(3, "axis", 0)
            s = arr.shape(t)
            ax = nd.norm_axis(ax, len(s))
            return self.dyn_slice(t, [k if j == ax else ZERO for j in range(len(s))], [n if j == ax else d for j, d in enumerate(s)])
        if name == "dynamic_index_in_dim":
            t, k, ax = tm(0), tm(1), iopt(2, "axis", 0)
            s = arr.shape(t)
            ax = nd.norm_axis(ax, len(s))
            r = self.dyn_slice(t, [k if j == ax else ZERO for j in range(len(s))], [1 if j == ax else d for j, d in enumerate(s)])
            return r if opt(3, "keepdims", TRUE) is TRUE else nd.squeeze(r, ax)
        if name in ("dynamic_update_slice", "dynamic_update_slice_in_dim", "dynamic_update_index_in_dim"):
            t, u = tm(0), tm(1)
            s = arr.shape(t)
            if name == "dynamic_update_slice":
                a = [p.term(x, st) for _, x in p.iterate(args[2], fr, st)]
            else:
                ax = nd.norm_axis(iopt(3, "axis", 0), len(s))
                a = [tm(2) if j == ax else ZERO for j in range(len(s))]
                if len(arr.shape(u)) < len(s):
                    u = nd.expand(u, ax)
            us = arr.shape(u)
            ks = [vn.cint(x) for x in a]
            if any(k is None for k in ks):
                raise Unsupported("symbolic update offset")
            ks = [min(max(k, 0), d - e) for k, d, e in zip(ks, s, us)]
            return nd.build(s, lambda i: nd.at(u, [x - k for x, k in zip(i, ks)]) if all(0 <= x - k < e for x, k, e in zip(i, ks, us)) else nd.at(t, i))
        if name in ("broadcast_arrays",):
            ts = [p.term(a, st) for a in args]
            s = arr.broadcast_shape(*[arr.shape(t) for t in ts])
            return p.new_list(st, [p.new_arr(st, arr.broadcast_to(t, s)) if npy else arr.broadcast_to(t, s) for t in ts])
        if name in ("square",):
            return arr.ew(lambda x: vn.mul(x, x), tm(0))
        if name in ("bitwise_and", "bitwise_or"):
            return self.np_pure("logical_" + name[8:], args, kw, npy, fr, st)
        if name in ("invert", "bitwise_not"):
            return self.np_pure("logical_not", args, kw, npy, fr, st)
        if name == "positive":
            return tm(0)
        if name == "float_":
            return tm(0)
        if name == "full_like":
            f = tm(1)
            return arr.split(lambda x: arr.broadcast_to(f, arr.shape(x)))(tm(0))
        if name == "full":
            d = self.dims(args[0] if args else kw["shape"], st, fr)
            return arr.broadcast_to(p.term(opt(1, "fill_value"), st), tuple(d)) if d else p.term(opt(1, "fill_value"), st)
        if name in ("select_n",):
            c = tm(0)
            return arr.where(c, tm(2), tm(1))
        if name in ("cross",) and (len(arr.shape(tm(0))) > 1 or len(arr.shape(tm(1))) > 1):
            a, b = tm(0), tm(1)
            s = arr.broadcast_shape(arr.shape(a), arr.shape(b))
            a, b = arr.broadcast_to(a, s), arr.broadcast_to(b, s)
            return seq([arr.cross(x, y) for x, y in zip(a.args, b.args)])
        if name in ("inner",) and len(arr.shape(tm(0))) > 1:
            return arr.matmul(tm(0), arr.transpose(tm(1)))
        if name == "vdot":
            return arr.split(lambda a, b: arr.dotv(arr.flat(a), arr.flat(b)) if len(arr.flat(a)) == len(arr.flat(b)) else _bad("vdot"))(tm(0), tm(1))
        if name == "fromiter":
            return p.term(args[0], st)
        if name in ("atleast_1d", "atleast_2d") and len(args) > 1:
            return p.new_list(st, [self.np_call(name, [a], {}, npy, fr, st) for a in args])
        if name == "linalg.inv" and all(vn.is_num(x) for x in arr.flat(tm(0))):
            t = tm(0)
            rows = [list(r.args) for r in t.args]
            n = len(rows)
            dt = nd.det(rows)
            if dt is ZERO:
                raise Unsupported("singular")

            def cof(i, j):
                m = nd.det([[x for b, x in enumerate(r) if b != i] for a, r in enumerate(rows) if a != j]) if n > 1 else ONE
                return vn.div(m if (i + j) % 2 == 0 else vn.neg(m), dt)
            return nd.build((n, n), lambda i: cof(*i))
        return None

    def dyn_slice(self, t, start, sizes):
        s = arr.shape(t)
        if len(start) != len(s) or len(sizes) != len(s) or any(n > d for n, d in zip(sizes, s)):
            raise ShapeError("dynamic_slice")
        for j, k in enumerate(start):
            c = vn.cint(k)
            if c is None:
                k = vn.minmax("max", [vn.minmax("min", [k, num(s[j] - sizes[j])]), ZERO])
                idx = seq([vn.add(k, num(i)) for i in range(sizes[j])])
            else:
                c = c + s[j] if c < 0 else c
                c = min(max(c, 0), s[j] - sizes[j])
                idx = seq([num(c + i) for i in range(sizes[j])])
            t = arr.index(t, (("sl", NONE, NONE, NONE),) * j + (idx,))
        return t

    def sdims(self, v, st, fr):
        p = self.p
        if isinstance(v, (PyTuple, ListRef)):
            r = [vn.cint(p.term(x, st)) for _, x in p.iterate(v, fr, st)]
        else:
            r = [vn.cint(p.term(v, st))]
        if any(x is None for x in r):
            raise Unsupported("symbolic dimension")
        return r

    def guarded_cat(self, name, e, ax, st):
        p = self.p
        g = [x for x, _ in e if x is not TRUE][0]
        v = vn.min_atom(*[x for x, _ in e])

        def go(val):
            out = []
            for gg, x in e:
                h = vn.restrict(gg, v, val)
                if h is not FALSE:
                    out.append((h, vn.restrict(p.term(x, st), v, val)))
            if any(h is not TRUE for h, _ in out):
                return self.guarded_cat(name, out, ax, st)
            ts = [t for _, t in out]
            if not ts:
                return opq("concatenate of nothing")
            if name == "concatenate":
                return arr.concatenate(ts, ax)
            if name == "stack":
                return arr.split(lambda *xs: arr.stack(list(xs), ax))(*ts)
            return (arr.vstack2 if name == "vstack" else arr.hstack2)(*ts)
        return ite(vn.atom(v), go(True), go(False))

    # ------------------------------------------------------------ methods of builtin values
    def method(self, o, name, args, kw, fr, st):
        p = self.p
        if name.startswith("__ext_init__:"):
            return self.ext_init(o, name.split(":", 1)[1], args, kw, fr, st)
        if name.startswith("dyn:"):
            nm = name[4:]
            if nm in ("step", "_step"):
                return self.dyn_step(o, args, kw, fr, st)
            if nm in ("compute_state_dot", "_compute_state_dot"):
                return self.state_dot(o, *[p.term(a, st) for a in args], fr, st)
            return self.dyn_part(o, nm, p.term(args[0], st), fr, st)
        if name.startswith("pyd:"):
            return p.new_dict(st, {string(n): (TRUE, p.rd(st, ("a", o.id, n))) for c in o.cls.mro if isinstance(c, ClassVal) for n, _ in c.annotations})
        if isinstance(o, Cond):
            return p.branch(o.c, lambda s: self.method(o.a, name, args, kw, fr, s), lambda s: self.method(o.b, name, args, kw, fr, s), st)
        if isinstance(o, AtHelper):
            v = p.term(args[0], st) if args else None
            if name == "get":
                return arr.index(o.arr, o.path)
            op = {"set": None, "add": vn.add, "multiply": vn.mul, "mul": vn.mul, "min": lambda a, b: vn.minmax("min", [a, b]),
                  "max": lambda a, b: vn.minmax("max", [a, b]), "divide": vn.div, "power": vn.power}[name]
            # booleans stored into float arrays become 0/1
            if not all(vn.is_bool(x) for x in arr.flat(o.arr)) or o.arr.op != "seq":
                v = arr.split(lambda t: arr.ew(boolnum, t))(v)
            return arr.iset(o.arr, o.path, v, op)
        if name == "__setattr__" and isinstance(o, Obj):
            p.wr(st, ("a", o.id, args[0].args[0]), args[1])
            return NONE
        if isinstance(o, Obj) and name in ("__init_subclass__", "__post_init__"):
            return NONE
        if isinstance(o, LruFn) and name == "cache_clear":
            p.wr(st, ("lru", o.id), GL(()))
            return NONE
        if isinstance(o, InstDict):
            if name == "update":
                src = args[0] if args else p.new_dict(st, {string(k): (TRUE, v) for k, v in kw.items()})
                for _, kv in self.dict_method(src, "items", [], {}, fr, st).e:
                    p.setitem(o, kv.vals[0], kv.vals[1], fr, st)
                return NONE
            tmp = p.new_dict(st, {string(k[2]): (TRUE, st.h[k]) for k in p.inst(o, st)})
            if name in ("pop", "setdefault"):
                r = self.dict_method(tmp, name, args, kw, fr, st)
                if name == "pop":
                    p.wr(st, ("a", o.obj.id, args[0].args[0]), UNDEF)
                else:
                    p.setitem(o, args[0], r, fr, st)
                return r
            return self.dict_method(tmp, name, args, kw, fr, st)
        if isinstance(o, (GL, IterRef)):
            return o if name == "__iter__" else self.call_builtin("next", [o] + args, {}, fr, st)
        if isinstance(o, JitFn) and name == "clear_cache":
            for k in [k for k in st.h if k[0] == "jit" and k[1] == o.id]:
                st.h[k] = UNDEF
            return NONE
        if isinstance(o, ListRef):
            return self.list_method(o, name, args, kw, fr, st)
        if isinstance(o, DictRef):
            return self.dict_method(o, name, args, kw, fr, st)
        if isinstance(o, SetRef):
            return self.set_method(o, name, args, kw, fr, st)
        if isinstance(o, PyTuple):
            if name == "index":
                return self.list_index(tuple((TRUE, v) for v in o.vals), args[0], fr, st)
            if name == "count":
                return self.list_method(p.new_list(st, o.vals), "count", args, kw, fr, st)
            if name == "_replace":
                return PyTuple([kw.get(n, v) for n, v in zip(o.names, o.vals)], o.names, o.cls)
            if name == "_asdict":
                return p.new_dict(st, {string(n): (TRUE, v) for n, v in zip(o.names, o.vals)})
            raise Unsupported("tuple." + name)
        if isinstance(o, ExtObj) and o.path == "ExitStack":
            if name == "callback":
                p.wr(st, ("L", o.args[0].id), GL(p.glist(st, o.args[0]) + ((TRUE, PyTuple([Partial(args[0], args[1:], kw), PyTuple(())])),)))
                return args[0]
            raise Unsupported("ExitStack." + name)
        if isinstance(o, ExtObj):
            return self.extobj_method(o, name, args, kw, fr, st)
        if isinstance(o, Term) and (o.op == "str" or o in vn.STRSYMS):
            return self.str_method(o, name, args, kw, fr, st)
        if isinstance(o, Term) and o.op == "opq":
            return p.unknown("method " + name, o)
        # arrays
        t = p.term(o, st)
        npy = isinstance(o, ArrRef)
        if name in ("copy", "flatten", "conj"):
            r = t if name != "flatten" else seq(arr.flat(t))
            return p.new_arr(st, r) if npy else r
        if name in ("astype", "round", "view"):
            if name == "round":
                return self.np_call("round", [o] + args, kw, npy, fr, st)
            if name == "astype":
                dt = args[0] if args else kw.get("dtype", NONE)
                t = self.cast(t, dt)
                v = p.new_arr(st, t) if npy else t
                if isinstance(v, ArrRef) and self.dtype_kind(dt) == "int":
                    st.h[("Ad", v.id)] = "int"
                return v
            return o
        if name == "block_until_ready":
            return o
        if name == "tolist":
            def go(x):
                return p.new_list(st, [go(y) for y in x.args]) if x.op == "seq" else x
            return go(t)
        if name == "item":
            return arr.split(lambda x: arr.flat(x)[vn.cint(p.term(args[0], st)) if args else 0])(t)
        if name == "reshape":
            a = args[0] if len(args) == 1 else PyTuple(args)
            return self.np_call("reshape", [o, a], kw, npy, fr, st)
        if name == "fill":
            p.aset(o, (), p.term(args[0], st), st)
            return NONE
        if name == "sort":
            p.aset(o, (), self.np_pure("sort", [t], {}, npy, fr, st), st)
            return NONE
        if name == "clip":
            return self.np_call("clip", [o] + args, kw, npy, fr, st)
        if name == "__len__":
            return p.length(o, fr, st)
        if name == "trace":
            return arr.fsum([t.args[i].args[i] for i in range(len(t.args))])
        if name == "diagonal":
            return self.np_call("diag", [o], kw, npy, fr, st)
        return self.np_call(name, [o] + args, kw, npy, fr, st)

    def list_index(self, e, x, fr, st):
        p = self.p
        r = None
        cnt = ZERO
        opts = []
        for g, v in e:
            c = band(g, p.truthy(p.equal(v, x, fr, st), fr, st))
            if c is not FALSE:
                opts.append((c, cnt))
                if c is TRUE:
                    break
            cnt = vn.add(cnt, ite(g, ONE, ZERO))
        if not opts:
            p.raise_exc(ExcVal("ValueError", (string("not in list"),), key="index"), fr, st, TRUE)
            raise Dead()
        r = opts[-1][1]
        for c, k in reversed(opts[:-1]):
            r = ite(c, k, r)
        return r

    def list_method(self, o, name, args, kw, fr, st):
        p = self.p
        e = p.glist(st, o)
        key = ("L", o.id)
        cut = (lambda x, left=False: self.trim(x, o.maxlen, left)) if isinstance(o, DequeRef) else (lambda x, left=False: x)
        if name == "append":
            p.wr(st, key, GL(cut(e + ((TRUE, args[0]),))))
            return NONE
        if name == "extend":
            p.wr(st, key, GL(cut(e + tuple(p.iterate(args[0], fr, st)))))
            return NONE
        if name == "appendleft":
            p.wr(st, key, GL(cut(((TRUE, args[0]),) + e, True)))
            return NONE
        if name == "extendleft":
            p.wr(st, key, GL(cut(tuple(reversed(p.iterate(args[0], fr, st))) + e, True)))
            return NONE
        if name == "popleft":
            return self.list_method(o, "pop", [ZERO], {}, fr, st)
        if name == "rotate":
            k = vn.cint(p.term(args[0], st)) if args else 1
            if k is None or any(g is not TRUE for g, _ in e):
                raise Unsupported("rotate")
            k = k % len(e) if e else 0
            p.wr(st, key, GL(e[len(e) - k:] + e[:len(e) - k]))
            return NONE
        if name == "__len__":
            return p.length(o, fr, st)
        if name == "__getitem__":
            return p.getitem(o, args[0], fr, st)
        if name == "__setitem__":
            p.setitem(o, args[0], args[1], fr, st)
            return NONE
        if name == "__contains__":
            return p.contains(o, args[0], fr, st)
        if name == "__iter__":
            return p.new_iter(st, e)
        if name == "sort":
            p.wr(st, key, GL(p.glist(st, self.call_builtin("sorted", [o], kw, fr, st))))
            return NONE
        if name == "copy":
            return p.new_glist(st, e)
        if name == "clear":
            p.wr(st, key, GL(()))
            return NONE
        if name == "insert":
            k = vn.cint(p.term(args[0], st))
            if k is None or any(g is not TRUE for g, _ in e[:max(k, 0)]):
                raise Unsupported("insert")
            l = list(e)
            l.insert(k, (TRUE, args[1]))
            p.wr(st, key, GL(l))
            return NONE
        if name == "pop":
            k = vn.cint(p.term(args[0], st)) if args else -1
            if k is None or any(g is not TRUE for g, _ in (e if k >= 0 else e[k:])):
                raise Unsupported("pop")
            if k >= 0 and any(g is not TRUE for g, _ in e):
                raise Unsupported("pop")
            if not -len(e) <= k < len(e):
                raise ShapeError("pop", "IndexError")
            l = list(e)
            v = l.pop(k)[1]
            p.wr(st, key, GL(l))
            return v
        if name == "index":
            return self.list_index(e, args[0], fr, st)
        if name == "count":
            n = ZERO
            for g, v in e:
                n = vn.add(n, ite(band(g, p.truthy(p.equal(v, args[0], fr, st), fr, st)), ONE, ZERO))
            return n
        if name == "reverse":
            p.wr(st, key, GL(reversed(e)))
            return NONE
        if name == "remove":
            out, found = [], FALSE
            for g, v in e:
                c = band(g, p.truthy(p.equal(v, args[0], fr, st), fr, st))
                kill = band(c, bnot(found))
                out.append((band(g, bnot(kill)), v))
                found = bor(found, c)
            if found is FALSE:
                p.fail("ValueError", "list.remove", fr, st)
            p.fail_if(bnot(found), "ValueError", "list.remove", fr, st)
            p.wr(st, key, GL([(g, v) for g, v in out if g is not FALSE]))
            return NONE
        raise Unsupported("list." + name)

    def dict_method(self, o, name, args, kw, fr, st):
        p = self.p
        d = p.ddict(st, o)
        if name == "keys":
            return GL([(g, p.kobj.get(k, k)) for k, (g, _) in d.items()])
        if name == "values":
            return GL([(g, v) for _, (g, v) in d.items()])
        if name == "items":
            return GL([(g, PyTuple([p.kobj.get(k, k), v])) for k, (g, v) in d.items()])
        if name == "get":
            return p.dict_get(d, args[0], st, args[1] if len(args) > 1 else NONE)
        if name == "setdefault":
            k = p.dkey(args[0], st)
            dv = args[1] if len(args) > 1 else NONE
            v = p.dict_get(d, k, st, dv)
            p.setitem(o, k, v, fr, st)
            return v
        if name == "update":
            if args:
                p.dict_update(o, args[0], fr, st)
            for k, v in kw.items():
                p.setitem(o, string(k), v, fr, st)
            return NONE
        if name == "copy":
            return p.new_dict(st, d)
        if name == "clear":
            p.wr(st, ("D", o.id), {})
            return NONE
        if name == "pop":
            k = p.dkey(args[0], st)
            if len(args) < 2 and not k.taint:
                p.fail_if(bnot(p.dict_has(d, k)), "KeyError", "pop", fr, st)
            v = p.dict_get(d, k, st, args[1] if len(args) > 1 else None)
            d = dict(d)
            p.dict_del(d, k)
            p.wr(st, ("D", o.id), d)
            return v
        if name == "popitem":
            last = (args[0] if args else kw.get("last", TRUE)) is TRUE
            ks = list(d)
            if not ks:
                p.fail("KeyError", "popitem", fr, st)
            k = ks[-1 if last else 0]
            if d[k][0] is not TRUE:
                raise Unsupported("popitem of a conditional entry")
            d = dict(d)
            _, v = d.pop(k)
            p.wr(st, ("D", o.id), d)
            return PyTuple([p.kobj.get(k, k), v])
        if name == "move_to_end":
            d = dict(d)
            k = p.dkey(args[0], st)
            if k not in d:
                raise Unsupported("move_to_end")
            x = d.pop(k)
            last = (args[1] if len(args) > 1 else kw.get("last", TRUE)) is TRUE
            p.wr(st, ("D", o.id), {**d, k: x} if last else {k: x, **d})
            return NONE
        if name == "__getitem__":
            return p.getitem(o, args[0], fr, st)
        if name == "__setitem__":
            p.setitem(o, args[0], args[1], fr, st)
            return NONE
        if name == "__contains__":
            return p.contains(o, args[0], fr, st)
        if name == "__len__":
            return p.length(o, fr, st)
        if name == "fromkeys":
            return self.dict_fromkeys(args, st, fr)
        raise Unsupported("dict." + name)

    def set_method(self, o, name, args, kw, fr, st):
        p = self.p
        key = ("L", o.id)
        e = p.rd(st, key).e
        if name == "add":
            c = bor(*[band(g, p.truthy(p.equal(v, args[0], fr, st), fr, st)) for g, v in e]) if e else FALSE
            p.wr(st, key, GL(e + (((bnot(c), args[0]),) if c is not TRUE else ())))
            return NONE
        if name in ("discard", "remove"):
            p.wr(st, key, GL([(band(g, bnot(p.truthy(p.equal(v, args[0], fr, st), fr, st))), v) for g, v in e]))
            return NONE
        if name == "clear":
            p.wr(st, key, GL(()))
            return NONE
        if name == "update":
            for g, v in p.iterate(args[0], fr, st):
                if g is not TRUE:
                    raise Unsupported("set.update")
                self.set_method(o, "add", [v], {}, fr, st)
            return NONE
        if name == "copy":
            return SetRef(p.new_glist(st, e).id)
        if name == "__contains__":
            return p.contains(o, args[0], fr, st)
        other = args[0] if args else None
        if isinstance(other, IterRef):
            other = p.settle(other, st)
        if name in ("intersection", "difference", "intersection_update", "difference_update"):
            out = []
            for g, v in e:
                c = p.contains(other, v, fr, st)
                g = band(g, c if name.startswith("inter") else bnot(c))
                if g is not FALSE:
                    out.append((g, v))
            if name.endswith("update"):
                p.wr(st, key, GL(out))
                return NONE
            return SetRef(p.new_glist(st, out).id)
        if name in ("union", "symmetric_difference"):
            out = list(e) if name == "union" else [(band(g, bnot(p.contains(other, v, fr, st))), v) for g, v in e]
            for a in args:
                for g, v in p.iterate(a, fr, st):
                    c = band(g, bnot(p.contains(GL(out) if name == "union" else o, v, fr, st)))
                    out.append((c, v))
            return SetRef(p.new_glist(st, [(g, v) for g, v in out if g is not FALSE]).id)
        if name in ("issubset", "issuperset"):
            x, y = (o, other) if name == "issubset" else (other, o)
            return band(*[bor(bnot(g), p.contains(y, v, fr, st)) for g, v in p.iterate(x, fr, st)])
        if name == "isdisjoint":
            return band(*[bnot(band(g, p.contains(other, v, fr, st))) for g, v in e])
        raise Unsupported("set." + name)

    def str_method(self, o, name, args, kw, fr, st):
        p = self.p
        if o.op == "str" and not kw and name not in ("format", "join"):
            def conc(a):
                if isinstance(a, Term) and a.op == "str":
                    return a.args[0]
                if isinstance(a, Term) and vn.cint(a) is not None:
                    return vn.cint(a)
                if isinstance(a, PyTuple):
                    return tuple(conc(x) for x in a.vals)
                if a is NONE:
                    return None
                raise Unsupported("str." + name)
            try:
                r = getattr(o.args[0], name)(*[conc(a) for a in args])
            except (ValueError, TypeError) as ex:
                p.fail(type(ex).__name__, "str." + name, fr, st)
            if isinstance(r, bool):
                return TRUE if r else FALSE
            if isinstance(r, str):
                return string(r)
            if isinstance(r, int):
                return num(r)
            if isinstance(r, tuple):
                return PyTuple([string(x) for x in r])
            if isinstance(r, list):
                return p.new_list(st, [string(x) for x in r])
            raise Unsupported("str." + name)
        if o.op == "str" and all(isinstance(a, Term) and a.op == "str" for a in args) and not kw and name in ("startswith", "endswith", "lower", "upper", "strip",
                                                                                                          "replace", "lstrip", "rstrip"):
            r = getattr(o.args[0], name)(*[a.args[0] for a in args])
            return (TRUE if r else FALSE) if isinstance(r, bool) else string(r)
        if name == "format" and o.op == "str":
            import string as _s
            try:
                fields = list(_s.Formatter().parse(o.args[0]))
            except ValueError:
                p.fail("ValueError", "format", fr, st)
            parts, auto = [], 0
            for lit, fld, spec, conv in fields:
                parts.append(string(lit))
                if fld is None:
                    continue
                if fld == "":
                    fld, auto = str(auto), auto + 1
                if fld.isdigit() and int(fld) < len(args):
                    v = args[int(fld)]
                elif fld in kw:
                    v = kw[fld]
                else:
                    parts = None
                    break
                parts.append(p.fmt_value(v, string(spec or ""), fr, st))
            if parts is not None:
                return p.str_concat(parts)
            t = T("fn", "strfmt", o, *[p.term_or_opq(a, st) for a in args], *[p.term_or_opq(v, st) for v in kw.values()])
            vn.STRSYMS.add(t)
            return t
        if name == "join" and o.op == "str":
            e = p.iterate(args[0], fr, st)
            if all(g is TRUE for g, _ in e):
                parts = []
                for k, (_, v) in enumerate(e):
                    if k:
                        parts.append(o)
                    parts.append(p.to_str(v, fr, st))
                return p.str_concat(parts)
        if name == "split" and o.op == "str" and all(a.op == "str" for a in args):
            return p.new_list(st, [string(x) for x in o.args[0].split(*[a.args[0] for a in args])])
        raise Unsupported("str." + name)

    def extobj_method(self, o, name, args, kw, fr, st):
        p = self.p
        if o.path in DYN_LINEAR:
            if name == "step":
                return self.dyn_step(o, args, kw, fr, st)
            if name in ("compute_state_dot", "_compute_state_dot"):
                return self.state_dot(o, *[p.term(a, st) for a in args], fr, st)
            if name == "state_transition_system":
                return p.new_arr(st, arr.matmul(p.term(o.kw["A"], st), p.term(args[0], st)))
            if name == "state_transition_input":
                return o.kw["B"]
        if o.path == "qmc.LHS" and name in ("random",):
            n = vn.cint(p.term(args[0] if args else kw.get("n", ONE), st))
            d = vn.cint(p.term(o.kw["d"], st))
            if n is None or d is None or n > 50:
                raise Unsupported("qmc sample size")
            return p.new_arr(st, seq([seq([self.fresh(st, "lhs") for _ in range(d)]) for _ in range(n)]))
        if name == "writerow":
            self.event(st, "row", self.deepcopy(args[0], st))
            return NONE
        if name == "writerows":
            ev = p.rd(st, EVENTS)
            e = ev.e if isinstance(ev, GL) else ()
            new = tuple((g, PyTuple([string("row"), self.deepcopy(r, st)])) for g, r in p.iterate(args[0], fr, st))
            p.wr(st, EVENTS, GL(e + new))
            return NONE
        if name == "write":
            self.event(st, "write", *args)
            return NONE
        if name == "strftime":
            t = T("sym", "now")
            vn.STRSYMS.add(t)
            return t
        if name in ("close", "info", "warning", "error", "debug"):
            return NONE
        raise Unsupported(o.path + "." + name)

    # ------------------------------------------------------------ builtins
    def call_builtin(self, name, args, kw, fr, st):
        p = self.p
        if name == "len":
            return p.length(args[0], fr, st)
        if name == "range":
            ts = [p.term(a, st) for a in args]
            if len(ts) == 1:
                return Range(ZERO, ts[0], ONE)
            return Range(ts[0], ts[1], ts[2] if len(ts) > 2 else ONE)
        if name == "enumerate":
            start = p.term(args[1] if len(args) > 1 else kw.get("start", ZERO), st)
            if isinstance(args[0], InfIter):
                return p.new_map(st, args[:1], lambda k, xs, s: PyTuple([vn.add(start, num(k))] + xs))
            out, cnt = [], start
            for g, v in p.iterate(args[0], fr, st):
                out.append((g, PyTuple([cnt, v])))
                cnt = vn.add(cnt, ite(g, ONE, ZERO))
            return p.new_iter(st, out)
        if name == "zip":
            if args and all(isinstance(a, InfIter) for a in args):
                return p.new_map(st, args, lambda k, xs, s: PyTuple(xs))
            r = self.zip(self.streams(args, fr, st)).e if args else ()
            return p.new_iter(st, r)
        if name in ("isinstance", "issubclass"):
            return self.isinstance_(args[0], args[1], fr, st)
        if name == "float":
            v = args[0] if args else ZERO
            if isinstance(v, Term) and v.op == "str":
                s = v.args[0].lower()
                if s in ("inf", "infinity"):
                    return vn.INF
                if s == "-inf":
                    return vn.neg(vn.INF)
                return num(float(s))
            t = p.term(v, st)
            return arr.split(lambda x: boolnum(arr.flat(x)[0]))(t)
        if name == "int":
            if args and isinstance(args[0], Term) and args[0].op == "str":
                b = vn.cint(p.term(args[1], st)) if len(args) > 1 else 10
                return num(int(args[0].args[0], b))
            t = p.term(args[0] if args else ZERO, st)
            return arr.split(lambda x: vn.fn1("int", boolnum(arr.flat(x)[0])))(t)
        if name == "bool":
            return p.truthy(args[0], fr, st) if args else FALSE
        if name == "str":
            return p.to_str(args[0], fr, st) if args else string("")
        if name == "repr":
            return p.to_str(args[0], fr, st)
        if name == "list":
            return p.new_glist(st, p.iterate(args[0], fr, st) if args else ())
        if name == "tuple":
            if not args:
                return PyTuple(())
            e = p.iterate(args[0], fr, st)
            if any(g is not TRUE for g, _ in e):
                return GL(e)
            return PyTuple([v for _, v in e])
        if name in ("set", "frozenset"):
            r = SetRef(p.new_list(st, []).id)
            for g, v in (p.iterate(args[0], fr, st) if args else ()):
                if g is not TRUE:
                    st.h[("L", r.id)] = GL(st.h[("L", r.id)].e + ((g, v),))
                else:
                    self.set_method(r, "add", [v], {}, fr, st)
            return r
        if name == "dict":
            r = p.new_dict(st)
            if args:
                p.dict_update(r, args[0], fr, st)
            for k, v in kw.items():
                p.setitem(r, string(k), v, fr, st)
            return r
        if name == "abs":
            return self.np_call("abs", args, kw, isinstance(args[0], ArrRef), fr, st)
        if name == "round":
            t = p.term(args[0], st)
            if len(args) > 1:
                return arr.ew(lambda x: vn.fnterm("roundn", x, p.term(args[1], st)), t)
            return vn.fn1("round", t)
        if name in ("min", "max"):
            if kw.get("key", NONE) is not NONE:
                vs = self.plain(args[0], fr, st, name) if len(args) == 1 else list(args)
                if not vs:
                    if "default" in kw:
                        return kw["default"]
                    p.fail("ValueError", name + " of empty", fr, st)
                ks = [p.call(kw["key"], [v], {}, fr, st) for v in vs]
                best, bk = vs[0], ks[0]
                import ast as _a
                for v, k in zip(vs[1:], ks[1:]):
                    c = p.truthy(p.compare(_a.Lt() if name == "min" else _a.Gt(), k, bk, fr, st), fr, st)
                    best, bk = vite(c, v, best), vite(c, k, bk)
                return best
            args = [p.settle(a, st) for a in args]
            e = p.iterate(args[0], fr, st) if len(args) == 1 else tuple((TRUE, a) for a in args)
            inf = vn.INF if name == "min" else vn.neg(vn.INF)
            if "default" in kw and not e:
                return kw["default"]
            if not e:
                p.fail("ValueError", name + " of empty", fr, st)
            if all(g is TRUE and isinstance(v, Term) and v.op == "str" for g, v in e):
                return string((min if name == "min" else max)(v.args[0] for _, v in e))
            if all(g is TRUE and isinstance(v, (PyTuple, ListRef)) for g, v in e) and e:
                import ast as _a
                best = e[0][1]
                for _, v in e[1:]:
                    best = vite(p.truthy(p.compare(_a.Lt() if name == "min" else _a.Gt(), v, best, fr, st), fr, st), v, best)
                return best
            if "default" in kw and all(g is not TRUE for g, _ in e):
                none = band(*[bnot(g) for g, _ in e])
                if none is not FALSE:
                    raise Unsupported(name + " with a default over a conditional list")
            ts = [(g, p.term(v, st)) for g, v in e]
            ts = [t if g is TRUE else ite(g, t, inf) for g, t in ts]
            return vn.minmax(name, ts)
        if name == "sum":
            start = args[1] if len(args) > 1 else kw.get("start", ZERO)
            if isinstance(start, (ListRef, PyTuple)):
                import ast as _a
                for v in self.plain(args[0], fr, st, "sum"):
                    start = p.binop(_a.Add(), start, v, fr, st)
                return start
            acc = p.term(start, st)
            npy = False
            for g, v in p.iterate(args[0], fr, st):
                npy = npy or isinstance(v, ArrRef)
                t = p.term(v, st)
                acc = arr.add(acc, t if g is TRUE else arr.ew(lambda x: ite(g, boolnum(x), ZERO), t))
            return p.new_arr(st, acc) if npy else acc
        if name == "any":
            return bor(*[band(g, p.truthy(v, fr, st)) for g, v in p.iterate(args[0], fr, st)])
        if name == "all":
            return band(*[bor(bnot(g), p.truthy(v, fr, st)) for g, v in p.iterate(args[0], fr, st)])
        if name == "print":
            return NONE
        if name == "open":
            self.event(st, "open", args[0])
            return ExtObj("file", (args[0],), {}, p.new_id())
        if name == "getattr":
            if not (isinstance(args[1], Term) and args[1].op == "str"):
                raise Unsupported("getattr with computed name")
            return p.getattr(args[0], args[1].args[0], fr, st, args[2] if len(args) > 2 else None)
        if name == "setattr":
            if not (isinstance(args[1], Term) and args[1].op == "str"):
                raise Unsupported("setattr with computed name")
            p.setattr(args[0], args[1].args[0], args[2], fr, st)
            return NONE
        if name == "hasattr":
            o, n = args[0], args[1].args[0]
            if isinstance(o, Obj):
                if p.find(o.cls, n) is not None:
                    return TRUE
                return I.present(st.h, ("a", o.id, n))
            if isinstance(o, (Term, ArrRef)):
                t = p.term(o, st)
                if n == "shape":
                    return TRUE if t.op == "seq" or arr.varshape(t) else FALSE
                return TRUE if n in ARR_METHODS and t.op == "seq" else FALSE
            raise Unsupported("hasattr")
        if name == "callable":
            v = args[0]
            return TRUE if isinstance(v, (FuncVal, Bound, JitFn, VmapFn, GradFn, Partial, ClassVal, ExtVal)) or isinstance(v, Obj) and p.find(v.cls, "__call__") else FALSE
        if name == "type":
            v = args[0]
            if isinstance(v, Obj):
                return v.cls
            if isinstance(v, DictRef):
                return ExtVal("dict")
            if isinstance(v, ListRef):
                return ExtVal("list")
            if isinstance(v, PyTuple):
                return v.cls or ExtVal("tuple")
            if isinstance(v, SetRef):
                return ExtVal("set")
            if isinstance(v, ExcVal):
                return ExtVal(v.name)
            if isinstance(v, Term) and (v.op == "str" or p.is_str(v)):
                return ExtVal("str")
            if isinstance(v, Cond):
                return vite(v.c, self.call_builtin(name, [v.a], {}, fr, st), self.call_builtin(name, [v.b], {}, fr, st))
            raise Unsupported("type()")
        if name == "sorted":
            e = p.iterate(args[0], fr, st)
            rev = kw.get("reverse", FALSE)
            rev = p.truthy(rev, fr, st)
            if rev not in (TRUE, FALSE):
                raise Unsupported("sorted in a conditional direction")
            kf = kw.get("key", NONE)
            guards = any(g is not TRUE for g, _ in e)
            ks = [v if kf is NONE else p.call(kf, [v], {}, fr, st) for _, v in e]

            def conc(k):
                if isinstance(k, Term) and k.op in ("num", "str"):
                    return k.args[0]
                if k is TRUE or k is FALSE:
                    return k is TRUE
                if isinstance(k, (PyTuple, ListRef)):
                    return tuple(conc(x) for x in self.plain(k, fr, st, "sorted"))
                raise KeyError
            try:
                keys = [conc(k) for k in ks]
                order = sorted(range(len(e)), key=lambda i: keys[i], reverse=rev is TRUE)
                return p.new_glist(st, [e[i] for i in order])
            except KeyError:
                pass
            except TypeError:
                p.fail("TypeError", "sorted", fr, st)
            if guards or not all(isinstance(k, (Term, ArrRef)) for k in ks):
                raise Unsupported("sorted")
            # symbolic numeric keys: element at rank j
            kt = [p.term(k, st) for k in ks]
            if any(t.op == "seq" for t in kt):
                raise Unsupported("sorted by arrays")
            if rev is TRUE:
                kt = [vn.neg(t) for t in kt]
            perm = arr.argsort(seq(kt))
            return p.new_list(st, [p.list_get(e, i, st) for i in perm.args])
        if name == "reversed":
            return p.new_iter(st, tuple(reversed(p.iterate(args[0], fr, st))))
        if name == "map":
            if all(isinstance(a, InfIter) for a in args[1:]):
                return p.new_map(st, args[1:], lambda k, xs, s: p.call(args[0], xs, {}, fr, s))
            out = []
            for g, tup in self.zip(self.streams(args[1:], fr, st)).e:
                out.append((g, p.under(g, lambda s, tup=tup: p.call(args[0], list(tup.vals), {}, fr, s), st)))
            return p.new_iter(st, out)
        if name == "filter":
            out = []
            for g, v in p.iterate(args[0 + 1], fr, st):
                c = p.truthy(v if args[0] is NONE else p.under(g, lambda s, v=v: p.call(args[0], [v], {}, fr, s), st), fr, st)
                out.append((band(g, c), v))
            return p.new_iter(st, [(g, v) for g, v in out if g is not FALSE])
        if name == "iter":
            if len(args) > 1:
                raise Unsupported("iter with a sentinel")
            return args[0] if isinstance(args[0], (IterRef, InfIter)) else p.new_iter(st, p.iterate(args[0], fr, st))
        if name == "next":
            o = args[0]
            if isinstance(o, InfIter):
                return p.take(o, 1, st)[0][1]
            if isinstance(o, Obj) and p.find(o.cls, "__next__") is not None:
                return p.call(Bound(o, p.find(o.cls, "__next__")), [], {}, fr, st)
            if isinstance(o, Cond):
                return p.branch(o.c, lambda s: self.call_builtin(name, [o.a] + args[1:], kw, fr, s), lambda s: self.call_builtin(name, [o.b] + args[1:], kw, fr, s), st)
            if not isinstance(o, IterRef):
                if isinstance(o, Term) and o.op == "opq":
                    return p.unknown("next of unknown")
                p.fail("TypeError", "not an iterator", fr, st)
            e = p.peek(o, st)
            some, rest = FALSE, []
            for g, x in e:
                h = band(g, some)
                if h is not FALSE:
                    rest.append((h, x))
                some = bor(some, g)
            p.wr(st, ("I", o.id), GL(rest))
            v = args[1] if len(args) > 1 else None
            if v is None:
                if some is FALSE:
                    p.fail("StopIteration", "", fr, st)
                p.fail_if(bnot(some), "StopIteration", "", fr, st)
            for g, x in reversed(e):
                v = x if v is None or g is TRUE else vite(g, x, v)
            return v
        if name == "divmod":
            import ast as _a
            return PyTuple([p.binop(_a.FloorDiv(), args[0], args[1], fr, st), p.binop(_a.Mod(), args[0], args[1], fr, st)])
        if name == "vars":
            return p.getattr(args[0], "__dict__", fr, st)
        if name == "format":
            return p.fmt_value(args[0], args[1] if len(args) > 1 else string(""), fr, st)
        if name == "delattr":
            p.wr(st, ("a", args[0].id, args[1].args[0]), UNDEF)
            return NONE
        if name == "property":
            return I.PropertyVal(args[0] if args else kw.get("fget"), args[1] if len(args) > 1 else kw.get("fset"))
        if name == "staticmethod":
            return I.StaticM(args[0])
        if name == "classmethod":
            return I.ClassM(args[0])
        if name == "pow":
            return arr.power(p.term(args[0], st), p.term(args[1], st))
        if name == "slice":
            a = args + [NONE] * (3 - len(args))
            return SliceVal(NONE, a[0], NONE) if len(args) == 1 else SliceVal(*a[:3])
        if name == "id":
            return p.canon(args[0], st)
        if name == "object":
            return ExtObj("object", (), {}, p.new_id())
        if name in BUILTIN_EXC:
            return ExcVal(name, args)
        raise Unsupported("builtin " + name)

    def zip(self, es):
        if not es:
            return GL(())
        if all(all(g is TRUE for g, _ in e) for e in es):
            return GL([(TRUE, PyTuple([v for _, v in x])) for x in zip(*es)])
        gs = [tuple(g for g, _ in e) for e in es]
        if all(x == gs[0] for x in gs):
            return GL([(x[0][0], PyTuple([v for _, v in x])) for x in zip(*es)])
        # prefix-closed guarded lists (each guard implies its predecessor)
        def prefix(e):
            return all(band(e[k + 1][0], bnot(e[k][0])) is FALSE for k in range(len(e) - 1))
        if all(prefix(e) for e in es):
            return GL([(band(*[g for g, _ in x]), PyTuple([v for _, v in x])) for x in zip(*es)])
        raise Unsupported("zip of guarded lists")

    def isinstance_(self, v, typ, fr, st):
        p = self.p
        if isinstance(typ, PyTuple):
            return bor(*[self.isinstance_(v, t, fr, st) for t in typ.vals])
        if isinstance(v, Cond):
            return ite(v.c, self.isinstance_(v.a, typ, fr, st), self.isinstance_(v.b, typ, fr, st))
        if isinstance(v, Obj):
            if isinstance(typ, ClassVal):
                return TRUE if typ in v.cls.mro else FALSE
            if isinstance(typ, ExtVal):
                return TRUE if typ in v.cls.mro or typ.path == "object" else FALSE
            return FALSE
        if isinstance(v, ClassVal):
            return TRUE if isinstance(typ, (ClassVal, ExtVal)) and typ in v.mro else FALSE
        if isinstance(typ, ClassVal):
            if isinstance(v, Term) and v.op == "opq":
                return truth(opq("isinstance", v))
            return FALSE
        if not isinstance(typ, ExtVal):
            return truth(p.unknown("isinstance type"))
        path = typ.path
        last = path.split(".")[-1]
        if isinstance(v, Term) and v.op == "ite":
            return ite(vn.atom(v.args[0]), self.isinstance_(v.args[1], typ, fr, st), self.isinstance_(v.args[2], typ, fr, st))
        if isinstance(v, Term) and v.op == "opq":
            return truth(opq("isinstance", v))
        if path == "numpy.ndarray":
            return TRUE if isinstance(v, ArrRef) else FALSE
        if path in ("jax.numpy.ndarray", "jax.Array", "jax.numpy.array", "jaxlib.xla_extension.ArrayImpl"):
            return TRUE if isinstance(v, Term) and v.op == "seq" else FALSE
        if last in ("list", "List"):
            return TRUE if isinstance(v, ListRef) else FALSE
        if last in ("tuple", "Tuple"):
            return TRUE if isinstance(v, (PyTuple,)) else FALSE
        if last in ("dict", "Dict", "OrderedDict", "Mapping"):
            return TRUE if isinstance(v, DictRef) else FALSE
        if last in ("Sequence", "Iterable"):
            return TRUE if isinstance(v, (ListRef, PyTuple)) else FALSE
        if last == "set":
            return TRUE if isinstance(v, SetRef) else FALSE
        if last == "str":
            return TRUE if isinstance(v, Term) and (v.op == "str" or v in vn.STRSYMS) else FALSE
        isn = isinstance(v, Term) and v.op not in ("str", "none", "seq") and v not in vn.STRSYMS
        if last in ("float", "Number", "Real", "floating", "float64", "number"):
            return TRUE if isn and v.op != "bool" else FALSE
        if last in ("int", "Integral", "integer", "int64"):
            return TRUE if isn and (v.op == "bool" or vn.is_integral(v)) else FALSE
        if last == "bool":
            return TRUE if isinstance(v, Term) and v.op == "bool" else FALSE
        if last in ("Callable",):
            return self.call_builtin("callable", [v], {}, fr, st)
        if isinstance(v, ExcVal):
            return TRUE if I.exc_sub(v.name, last) else FALSE
        if isinstance(v, ExtObj):
            return TRUE if v.path == path else FALSE
        if path == "object":
            return TRUE
        if last in BUILTIN_EXC:
            return FALSE
        return truth(p.unknown("isinstance " + path))


DYN = "safe_autonomy_simulation.dynamics."
DYN_BASES = {DYN + "ODEDynamics", DYN + "ControlAffineODEDynamics", DYN + "LinearODEDynamics", DYN + "Dynamics"}
DYN_LINEAR = {DYN + "LinearODEDynamics"}


def _bad(msg):
    raise ShapeError(msg)


def boolnum(x):
    if x.op == "bool":
        return ONE if x.args[0] else ZERO
    if x.op == "ite":
        return ite(vn.atom(x.args[0]), boolnum(x.args[1]), boolnum(x.args[2]))
    return x


def sub_scalar(t):
    if t.op == "seq" and len(t.args) == 1:
        return t.args[0]
    return t


def clip3(x, lo, hi):
    """np.clip with optional (None) bounds, bounds possibly conditional"""
    for b in (lo, hi):
        if b.op == "ite" and any(l is NONE for _, l in arr._few_leaves(b)):
            v = b.args[0]
            return ite(vn.atom(v), clip3(*[vn.restrict(t, v, True) for t in (x, lo, hi)]), clip3(*[vn.restrict(t, v, False) for t in (x, lo, hi)]))
    if lo is NONE and hi is NONE:
        return x
    if lo is NONE:
        return arr.ew(lambda a, h: vn.clip(a, NONE, h), x, hi)
    if hi is NONE:
        return arr.ew(lambda a, l: vn.clip(a, l, NONE), x, lo)
    return arr.ew(vn.clip, x, lo, hi)


# ---------------------------------------------------------------- solver value numbers
def _all_ite(ts):
    for t in ts:
        if t.op == "ite":
            return True
    return False


_QP = {}


def qp_key(G, a, rows):
    """canonical value number of a quadratic program (independent of row order)"""
    k0 = (G, a, rows)
    r = _QP.get(k0)
    if r is not None:
        return r
    fl = arr.flat(G) + arr.flat(a) + arr.flat(rows)
    v = vn.min_atom(*fl)
    if v is not None:
        go = lambda val: qp_key(*[map_flat(t, lambda x: vn.restrict(x, v, val)) for t in k0])
        r = ite(vn.atom(v), go(True), go(False))
    else:
        rs = set()
        for row in rows.args:
            if qp_trivial(row.args, [r.args for r in rows.args], a.args, lambda x: x is ZERO):
                continue
            rs.add(row)
        r = T("qp", G, a, seq(sorted(rs, key=lambda t: t.id)))
    _QP[k0] = r
    return r


def qp_trivial(row, rows, a, zero):
    """rows that can never bind: no coefficient at all, or a bound at 0 on a variable whose preferred value is 0 and that occurs in no
    other kind of row (the slack of a switched-off constraint)"""
    nz = [j for j in range(len(row) - 1) if not zero(row[j])]
    if not nz:
        return zero(row[-1])
    if len(nz) > 1 or not zero(row[-1]):
        return False
    j = nz[0]
    if j >= len(a) or not zero(a[j]):
        return False
    for r in rows:
        if not zero(r[j]) and (not zero(r[-1]) or any(not zero(r[i]) for i in range(len(r) - 1) if i != j)):
            return False
    return True


def map_flat(t, f):
    if t.op == "seq":
        return seq([map_flat(x, f) for x in t.args])
    return f(t)


def qp_active(row, key):
    fl = arr.flat(row)
    v = vn.min_atom(key, *fl)
    if v is not None:
        go = lambda val: qp_active(map_flat(row, lambda x: vn.restrict(x, v, val)), vn.restrict(key, v, val))
        return ite(vn.atom(v), go(True), go(False))
    if key.op == "qp" and row not in key.args[2].args:
        return FALSE
    return truth(T("fn", "qp.act", row, key))


@vn.lift
def lift_truth(name, key):
    return truth(T("fn", name, key))


_MK = {}


def min_key(f, x0, bs, method, opts, tol, cons):
    k0 = (f, x0, bs, method, opts, tol, cons)
    r = _MK.get(k0)
    if r is not None:
        return r

    def parts(c):
        return arr.flat(c.args[1]) + arr.flat(c.args[2]) if c.op == "con" else [c]
    fl = [f] + arr.flat(x0) + arr.flat(bs) + [g for g, _ in cons] + [x for _, c in cons for x in parts(c)]
    v = vn.min_atom(*fl)
    if v is not None:
        def go(val):
            R = lambda t: vn.restrict(t, v, val)
            M = lambda t: map_flat(t, R)
            cs = []
            for g, c in cons:
                h = R(g)
                if h is FALSE:
                    continue
                if c.op == "con":
                    c = T("con", c.args[0], M(c.args[1]), M(c.args[2]))
                else:
                    c = R(c)
                cs.append((h, c))
            return min_key(R(f), M(x0), M(bs), method, opts, tol, tuple(cs))
        r = ite(vn.atom(v), go(True), go(False))
    else:
        cs = sorted({c for g, c in cons}, key=lambda t: t.id)
        r = T("min", f, x0, bs, method, opts, tol, seq(cs))
    _MK[k0] = r
    return r


vn.SPECIAL["qp"] = lambda G, a, rows: qp_key(G, a, rows)
vn.SPECIAL["min"] = lambda f, x0, bs, m, o, t, cs: min_key(f, x0, bs, m, o, t, tuple((TRUE, c) for c in cs.args))
vn.FN_SPECIAL["qp.act"] = lambda row, key: qp_active(row, key)
