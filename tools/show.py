"""show.py REPLAY: executes a replay file and prints its calls, and the outcomes of the failing ones."""
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import ex
d = json.load(open(sys.argv[1]))
o1, o2 = os.dup(1), os.dup(2)
nul = os.open("/dev/null", os.O_WRONLY)
os.dup2(nul, 1); os.dup2(nul, 2)
tr = ex.run_trace(d["script"])
os.dup2(o1, 1); os.dup2(o2, 2)
bad = {b["l"] for b in d["failures"]}
for k, e in enumerate(tr):
    a = {x: v for x, v in e.items() if x != "out"}
    print(k, json.dumps(a)[:int(sys.argv[2]) if len(sys.argv) > 2 else 400])
    if not e["out"]["ok"]: print("     REJECTED", e["out"]["exc"])
    if k in bad:
        for x, v in e["out"]["val"].items(): print("     ", x, json.dumps(v)[:1200])
for b in d["failures"]: print(b)
