#!/usr/bin/env python3
"""compare.py [names]: the engine's value of every snippet against the value of the real libraries."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
sys.setrecursionlimit(20000)
REAL = r"""
import json,sys,importlib.util,warnings
warnings.simplefilter('ignore')
s=importlib.util.spec_from_file_location('snippets',sys.argv[1]); m=importlib.util.module_from_spec(s); s.loader.exec_module(m)
import numpy as np
def plain(x):
    if hasattr(x,'tolist'): x=x.tolist()
    if isinstance(x,(list,tuple)): return [plain(y) for y in x]
    if isinstance(x,bool): return float(x)
    if isinstance(x,(int,float)): return float(x)
    return x
out={}
for n in dir(m):
    if n.startswith('t_'):
        try: out[n]=plain(getattr(m,n)())
        except Exception as e: out[n]='EXC '+type(e).__name__+str(e)[:80]
json.dump(out,sys.stdout)
"""


def main(only):
    env = dict(os.environ, JAX_PLATFORMS="cpu", JAX_ENABLE_X64="1", PYTHONDONTWRITEBYTECODE="1")
    real = json.loads(subprocess.run(["/opt/venv/bin/python", "-c", REAL, HERE + "/snippets.py"], capture_output=True, text=True, check=True, env=env).stdout)
    from rtastatic import client as C, interp as I, vn, evalr
    r = C.Runner("/repo")
    p = r.p
    with open(HERE + "/snippets.py", encoding="utf-8") as f:
        p.load_source("spec_snippets", f.read(), HERE + "/snippets.py")
    bad = 0

    def plain(v, st):
        if isinstance(v, I.PyTuple):
            return [plain(x, st) for x in v.vals]
        if isinstance(v, (I.ListRef, I.GL)):
            return [plain(x, st) for g, x in p.iterate(v, None, st) if g is not vn.FALSE]
        t = p.term(v, st)

        def go(t):
            if t.op == "seq":
                return [go(x) for x in t.args]
            if t.op == "str":
                return t.args[0]
            if t is vn.NONE:
                return None
            if t is vn.TRUE or t is vn.FALSE:
                return float(t is vn.TRUE)
            if t.taint or t.op == "opq":
                return "?" + vn.show(t)[:60]
            return number(t)
        return go(t)

    def number(t):
        if t.op == "num":
            return float(t.args[0])
        return evaluate(t)

    def evaluate(t):
        try:
            return float(evalr.Sample(1).num(t))
        except evalr.Undecided as e:
            return f"T {vn.show(t)[:80]} {e}"

    def close(a, b):
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
        if isinstance(a, float) and isinstance(b, float):
            return abs(a - b) <= 1e-6 * (1 + abs(b)) or a == b
        return a == b
    for n in sorted(real):
        if only and n not in only:
            continue
        st = p.state.copy()
        st.h[("L", "ev")] = I.GL(())
        st.h[("L", "rnd")] = vn.ZERO
        st.h[("L", "assume")] = vn.TRUE
        fr = I.Frame(p.new_id(), "<client>", p.mods["spec_snippets"])
        n0 = len(p.notes)
        try:
            val = p.call(st.h[("g", "spec_snippets", n)], [], {}, fr, st)
            got = plain(val, st)
        except I.Dead:
            got = "DEAD " + str([(getattr(e, "name", "?"), str(getattr(e, "args", ""))[:80]) for _, e, _ in getattr(fr, "raised", [])])
        except Exception as e:
            got = f"ERR {type(e).__name__} {e}"[:150]
        p.stack.clear()
        if not close(got, real[n]):
            bad += 1
            print(n, "engine", str(got)[:110], "| real", str(real[n])[:70], "|", [str(x)[:90] for x in p.notes[n0:][:1]])
    print(f"{len(real)} snippets, {bad} differ or are not modelled")


if __name__ == "__main__":
    main(sys.argv[1:])
