#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--root /repo] [--only SUBSTRING] [--verbose]

Decides one property by whole-program value-flow analysis of the current source tree.
Exit 0: every obligation that the analysis could decide holds.  Exit 1: a violation was found."""
import argparse
import json
import os
import pickle
import resource
import select
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from rtastatic import vn, client as C            # noqa: E402
from rtastatic.table import PROPERTIES           # noqa: E402

KNOWN = os.path.join(HERE, "known_findings.txt")
EVID = os.path.join(HERE, "evidence")
MEM = 3 << 30


def expand(prop, tier):
    out = []
    for e in PROPERTIES[prop]["clients"]:
        if e.tier == "thorough" and tier != "thorough":
            continue
        out += [(e.spec, e.func, cfg, e.budget) for cfg in e.configs()]
    return out


def subterms(t, seen):
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, vn.Term) or x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, vn.Term):
                stack.append(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, tuple):
                        stack += [c for c in b if isinstance(c, vn.Term)]
                        for c in b:
                            if isinstance(c, tuple):
                                stack += [d[0] for d in c if isinstance(d, tuple) and d and isinstance(d[0], vn.Term)]
                    else:
                        stack.append(b)
    return seen


def blame(p, o, root):
    """program points whose value occurs in the program's result but not in the specification's"""
    try:
        a, b = subterms(o.a, set()), subterms(o.b, set())
        diff = [t for t in a if t not in b and t in p.site]
        pts = {}
        for t in diff:
            f, line, q = p.site[t]
            if f.startswith(root):
                pts.setdefault((os.path.relpath(f, root), q), set()).add(line)
        return sorted(f"{f}:{min(ls)} {q}" + (f" (lines {', '.join(map(str, sorted(ls)))})" if len(ls) > 1 else "") for (f, q), ls in pts.items())[:12]
    except Exception as e:
        return [f"(no blame: {e})"]


def work(runner, item, samples, seed, root):
    spec, func, cfg, budget = item
    t0 = time.time()
    p = runner.p
    p.touched = {}
    res = {"client": f"{spec}.{func}", "cfg": cfg, "obls": [], "err": None, "notes": []}
    obls, notes, err = runner.run(spec, func, cfg, budget)
    res["err"] = err or "; ".join(e[1] for e in runner.errors) or None
    res["notes"] = [str(n) for n in notes][:6]
    # a construct the engine does not know may have had an effect it did not see: nothing computed around it is called a difference
    unknown = [str(n) for n in notes if not str(n).startswith(("range bound", "loop bound"))]
    res["unmodelled"] = unknown[:6]
    for o in obls:
        d = C.decide(o, samples, seed)
        if d[0] == "differ" and unknown:
            d = ("undecided", "unmodelled construct in this context: " + unknown[0][:120])
        r = {"label": o.label, "verdict": d[0]}
        if d[0] == "differ":
            s = d[1]
            r["program_value"], r["required_value"] = str(d[2])[:300], str(d[3])[:300]
            r["witness"] = {str(k): str(v)[:60] for k, v in list(s.used.items())[:60]}
            r["blame"] = blame(p, o, root)
        elif d[0] == "undecided":
            r["why"] = str(d[1])[:200]
        else:
            r["n"] = d[1] or 0
        res["obls"].append(r)
    res["touched"] = sorted({(os.path.relpath(k[0], root), k[1]) for k in p.touched if isinstance(k, tuple) and str(k[0]).startswith(root)})
    res["calls"] = p.calls
    res["wall"] = round(time.time() - t0, 2)
    return res


def run_all(runner, items, samples, seed, root, deadline, jobs):
    """one forked process per client: the analysis state is copied, never shared"""
    todo = list(enumerate(items))[::-1]
    running, out = {}, {}
    while todo or running:
        while todo and len(running) < jobs and time.time() < deadline:
            i, it = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
                    signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    data = work(runner, it, samples, seed, root)
                except BaseException as e:      # never a verdict
                    data = {"client": f"{it[0]}.{it[1]}", "cfg": it[2], "obls": [], "err": f"analysis failed: {type(e).__name__}: {e}", "notes": [], "touched": [],
                            "calls": 0, "wall": 0}
                with os.fdopen(w, "wb") as f:
                    pickle.dump(data, f)
                os._exit(0)
            os.close(w)
            running[r] = (i, pid, b"", time.time())
        if not running:
            break
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for r in ready:
            i, pid, buf, t = running[r]
            chunk = os.read(r, 1 << 20)
            if chunk:
                running[r] = (i, pid, buf + chunk, t)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            try:
                out[i] = pickle.loads(buf)
            except Exception:
                it = items[i]
                out[i] = {"client": f"{it[0]}.{it[1]}", "cfg": it[2], "obls": [], "err": "analysis process died", "notes": [], "touched": [], "calls": 0, "wall": 0}
        now = time.time()
        for r, (i, pid, buf, t) in list(running.items()):
            if now - t > items[i][3] * 4 + 60 or now > deadline:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del running[r]
                it = items[i]
                out[i] = {"client": f"{it[0]}.{it[1]}", "cfg": it[2], "obls": [], "err": "time budget", "notes": [], "touched": [], "calls": 0, "wall": round(now - t, 1)}
    for i, it in todo:
        out[i] = {"client": f"{it[0]}.{it[1]}", "cfg": it[2], "obls": [], "err": "not started: time budget", "notes": [], "touched": [], "calls": 0, "wall": 0}
    return [out[i] for i in sorted(out)]


def known(prop):
    """listed findings: (client, configuration text or *, obligation label) of this property"""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=" + prop + " "):
                body = line.split(" ", 2)[2]
                head, _, desc = body.partition(" -- ")
                cl, _, label = head.partition(" :: ")
                res.append((cl.strip(), label.strip(), desc.strip()))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--only")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    samples = 120 if tier == "quick" else 1000
    root = os.path.abspath(a.root)
    prop = PROPERTIES[a.prop]
    items = expand(a.prop, tier)
    if a.only:
        items = [i for i in items if a.only in f"{i[0]}.{i[1]}"]
    runner = C.Runner(root)
    vn.STABLE = True
    res = run_all(runner, items, samples, seed, root, t0 + (700 if tier == "quick" else 3000), min(8, os.cpu_count() or 4))

    kn = known(a.prop)
    viol, hit, und, eq, vac = [], {}, [], 0, 0
    touched, nsamp = set(), 0
    for r in res:
        touched |= set(map(tuple, r["touched"]))
        for o in r["obls"]:
            if o["verdict"] == "differ":
                k = next((k for k in kn if k[0] == r["client"] and k[1] == o["label"]), None)
                if k:
                    hit.setdefault(k, (r, o))
                else:
                    viol.append((r, o))
            elif o["verdict"] == "undecided":
                und.append((r, o))
            elif o["verdict"] == "vacuous":
                vac += 1
            else:
                eq += 1
                nsamp += o.get("n", 0)
    errs = [(r["client"], r["cfg"], r["err"]) for r in res if r["err"]]
    nob = sum(len(r["obls"]) for r in res)

    if a.verbose:
        for r in res:
            c = {}
            for o in r["obls"]:
                c[o["verdict"]] = c.get(o["verdict"], 0) + 1
            print(f"{r['client']} {r['cfg']} {r['wall']}s {c}" + (f" ERR {r['err']}" if r["err"] else "") + (f" NOTES {r['notes'][:2]}" if r["notes"] else ""))
            for o in r["obls"]:
                if o["verdict"] in ("differ", "undecided"):
                    print("    ", o["verdict"], o["label"], o.get("why", ""), o.get("program_value", ""), "!=", o.get("required_value", ""), o.get("blame", ""))

    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, f"replay-{a.prop}.json")
    if viol and not a.no_evidence:
        with open(replay, "w", encoding="utf-8") as f:
            json.dump({"property": a.prop, "rerun": f"python3 check.py {a.prop} --verbose",
                       "violations": [{"client": r["client"], "configuration": r["cfg"], "obligation": o["label"], "program_points": o.get("blame"),
                                       "program_value": o["program_value"], "required_value": o["required_value"], "witness_valuation": o["witness"]}
                                      for r, o in viol[:20]]}, f, indent=1)
    for k, (r, o) in hit.items():
        print(f"KNOWN-FINDING: property={a.prop} {k[2]}")
    for r, o in viol[:6]:
        print(f"{a.prop}: {r['client']} {r['cfg']}: {o['label']}: program {o['program_value'][:120]} required {o['required_value'][:120]}; at {'; '.join((o.get('blame') or [])[:4])}")
    if not a.no_evidence:
        ev = {"property": a.prop, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 2), "violations": len(viol),
              "coverage": {
                  "explanation": "Static value-flow analysis of the current source: " + prop["rule"],
                  "rule": prop["rule"],
                  "source_files_parsed": len({m.path for m in runner.p.mods.values() if getattr(m, "path", "") and m.path.startswith(root)}),
                  "functions_analysed": len(touched),
                  "functions": [f"{f}:{q}" for f, q in sorted(touched)][:400],
                  "call_sites_interpreted": sum(r["calls"] for r in res),
                  "analysis_contexts": len(res),
                  "obligations": nob, "discharged": eq, "vacuous": vac, "undecided": len(und), "contexts_not_fully_analysed": len(errs),
                  "contexts_with_unmodelled_constructs": sum(1 for r in res if r.get("unmodelled")),
                  "unmodelled_constructs": sorted({n for r in res for n in r.get("unmodelled", [])})[:20],
                  "random_valuations": nsamp,
                  "samples": [{"context": f"{r['client']} {r['cfg']}", "obligation": r["obls"][0]["label"], "verdict": r["obls"][0]["verdict"]}
                              for r in res if r["obls"]][:8],
                  "undecided_detail": [f"{r['client']} {r['cfg']} {o['label']}: {o.get('why')}" for r, o in und][:20],
                  "errors": [f"{c} {g}: {e}" for c, g, e in errs][:20],
                  "known_findings": [k[2] for k in hit]},
              "assumptions": prop.get("assumptions", []) + ["exact real arithmetic in place of floating point",
                                                           "library models of numpy, jax, scipy, quadprog and the simulation base class in rtastatic/ext.py"]}
        tmp = os.path.join(EVID, f"{a.prop}.json.{os.getpid()}.tmp")
        with open(tmp, "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, f"{a.prop}.json"))
    print(f"{a.prop} [{tier}]: {len(res)} contexts, {len(touched)} functions, {nob} obligations: {eq} hold, {vac} vacuous, {len(und)} undecided, "
          f"{len(viol)} violated, {len(hit)} known; {len(errs)} contexts incomplete, {sum(1 for r in res if r.get('unmodelled'))} with unmodelled constructs; {time.time() - t0:.1f}s")
    if viol:
        print(f"VIOLATION property={a.prop} replay={replay}")
        return 1
    if eq == 0 and not hit:
        print(f"{a.prop}: nothing could be decided", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
