"""tools/one.py PROP I [tail]: run one seed and print its plan summary, trace tail and violations"""
import sys, os, random, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot
boot.ensure_hashseed(1)
import importlib
W = importlib.import_module(os.environ.get("WORLD", "sim.w_layout"))
prop, i = sys.argv[1], int(sys.argv[2])
plan = W.gen(random.Random(f"1:{prop}:{i}"), prop)
w = W.run(plan, True)
if "-p" in sys.argv: print(json.dumps(plan, indent=1))
print(plan.get("cfg"), plan.get("end"))
n = int(sys.argv[3]) if len(sys.argv) > 3 else 60
tr = w.trace
vi = next((k for k, r in enumerate(tr) if "VIOLATION" in r or "BAD" in r), len(tr))
for r in tr[max(0, vi - n): vi + 8]: print(*r)
print(getattr(w, "violations", None) or getattr(w, "bad", None)); print(w.stats)
for r in boot.capture.records[-8:]: print(r)
