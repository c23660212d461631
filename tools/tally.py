"""tools/tally.py PROP N [start]: quick tally of violations, with an example index each"""
import sys, os, random, time, gc
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot
boot.ensure_hashseed(1)
import importlib
prop, n = sys.argv[1], int(sys.argv[2])
start = int(sys.argv[3]) if len(sys.argv) > 3 else 0
W = importlib.import_module(os.environ.get("WORLD", "sim.w_layout"))
t = time.time(); tally = {}; ex = {}; err = {}
for i in range(start, start + n):
    plan = W.gen(random.Random(f"1:{prop}:{i}"), prop)
    try:
        w = W.run(plan)
    except Exception as e:
        k = repr(e)[:150]
        err.setdefault(k, []).append(i); continue
    items = w.violations.items() if hasattr(w, "violations") else [((k,), m) for k, m in w.bad]
    for k, m in items:
        tally[k] = tally.get(k, 0) + 1; ex.setdefault(k, (i, m))
    if i % 50 == 0: gc.collect()
for k in sorted(tally): print(*k, tally[k], ex[k])
print("errors", {k: (len(v), v[:3]) for k, v in err.items()}, "%.1f runs/s" % (n / (time.time() - t)))
