#!/usr/bin/env python3
"""joins.py: the engine's account of attributes, locals, keys and yields that exist on some paths only."""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
import check
from rtastatic import client as C, vn

r = C.Runner("/repo")
vn.STABLE = True
bad = 0
for k in range(1, 9):
    d = check.work(r, ("joins", f"a{k}", {}, 300), 120, 1, "/repo")
    for o in d["obls"]:
        if o["verdict"] != "equal" or d["err"] or d["unmodelled"]:
            bad += 1
            print(f"a{k}", o["label"], o["verdict"], d["err"])
print("differences:", bad)
