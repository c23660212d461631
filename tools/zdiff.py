"""tools/zdiff.py WORLD PROP SHARD N: compare in-process runs with runs in a pristine fork"""
import sys, os, random, json, gc
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
world, prop, shard, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
from sim import boot
boot.ensure_hashseed(shard + 1)
import importlib
from sim import worker
worker.limits()
W = importlib.import_module(world)
Z = worker.Zygote(W, prop)
i = shard; k = bad = 0
while k < n:
    plan = W.gen(random.Random(f"1:{prop}:{i}"), prop)
    w, err = worker.one(W, plan, True)
    r = Z.run(plan, True)
    if w is None or r.get("digest") != w.digest:
        bad += 1
        print("seed", i, "differs", err)
        if w and bad <= 2:
            a = [list(map(str, x)) for x in w.trace][-400:]
            for x, y in zip(a, r["trace"]):
                if x != y:
                    j = a.index(x)
                    for z in a[max(0, j-5):j+4]: print("  A", *z)
                    j = r["trace"].index(y)
                    for z in r["trace"][max(0, j-5):j+4]: print("  B", *z)
                    break
    k += 1; i += 8
print(bad, "of", k)
