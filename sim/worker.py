"""One shard of a check (or one replay), in a process of its own.

python -m sim.worker search JOB.json     JOB: {world, prop, seed, shard, nshards, budget,
                                         max_runs, out, stop, tier}
python -m sim.worker replay FILE         exit 0: not reproduced, 1: reproduced, 3: error
"""
from __future__ import annotations

import gc
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

RUN_CPU_S = 60  # processor seconds for one simulated run; a run takes some 20 ms


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang


def limits():
    sys.setrecursionlimit(3000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGVTALRM, _alarm)


def one(W, plan, want_trace=False):
    """-> (world, error)"""
    signal.setitimer(signal.ITIMER_VIRTUAL, RUN_CPU_S)
    try:
        return W.run(plan, want_trace), None
    except Hang:
        return None, "hang"
    except Exception as e:  # noqa: BLE001
        return None, f"{type(e).__name__}: {e}"[:300] + "\n" + traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def judge(W, prop, plan, w, err):
    if err == "hang":
        return [("hang", f"the run did not end within {RUN_CPU_S} s of processor time")]
    if w is None:
        return []
    return W.judge(prop, plan, w)


def plan_size(plan):
    return len(json.dumps(plan))


class Zygote:
    """runs plans in children forked from a process that has not run any: what a run
    leaves behind in the process (a bug may make it do so) cannot touch another one"""

    def __init__(self, W, prop):
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.w)
            os.close(self.r)
            try:
                self.serve(W, prop, os.fdopen(a, "r"), os.fdopen(b, "w"))
            finally:
                os._exit(0)
        os.close(a)
        os.close(b)
        self.r, self.w = os.fdopen(self.r, "r"), os.fdopen(self.w, "w")

    @staticmethod
    def serve(W, prop, inp, out):
        gc.freeze()
        for line in inp:
            job = json.loads(line)
            pid = os.fork()
            if pid == 0:
                w, err = one(W, job["plan"], job["trace"])
                res = {"bad": judge(W, prop, job["plan"], w, err), "err": err}
                if w is not None:
                    res.update(digest=w.digest, stats=w.stats, sim=w.sim_time,
                               steps=w.steps, nontrivial=bool(W.nontrivial(prop, w)),
                               shapes=list(w.shapes)[:500])
                    if job["trace"]:
                        res["trace"] = [list(map(str, x)) for x in w.trace][-400:]
                out.write(json.dumps(res, default=str) + "\n")
                out.flush()
                if hasattr(W, "cleanup"):
                    W.cleanup()
                os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status:
                out.write(json.dumps({"bad": [], "err": f"child ended with {status}"})
                          + "\n")
                out.flush()

    def run(self, plan, trace=False):
        self.w.write(json.dumps({"plan": plan, "trace": trace}) + "\n")
        self.w.flush()
        return json.loads(self.r.readline())


def minimise(W, Z, plan, kind, budget):
    t0 = time.monotonic()
    tried = 0
    changed = True
    while changed and time.monotonic() - t0 < budget:
        changed = False
        for cand in W.shrink(plan):
            if time.monotonic() - t0 > budget:
                break
            tried += 1
            if any(k == kind for k, _ in Z.run(cand)["bad"]):
                plan = cand
                changed = True
                break
    return plan, tried


def search(job):
    limits()
    W = importlib.import_module(job["world"])
    prop, seed = job["prop"], job["seed"]
    out = open(job["out"], "w")

    def emit(o):
        out.write(json.dumps(o) + "\n")
        out.flush()

    t0 = time.monotonic()
    stats, digests, shapes, errors, samples = {}, set(), set(), [], []
    runs = nontrivial = redo = mismatch = carried = 0
    sim = steps = 0
    i = job["shard"]
    Z = Zygote(W, prop)
    forked = False
    while runs < job["max_runs"] and time.monotonic() - t0 < job["budget"]:
        if os.path.exists(job["stop"]):
            break
        plan = W.gen(random.Random(f"{seed}:{prop}:{i}"), prop)
        runs += 1
        if forked:
            res = Z.run(plan)
        else:
            w, err = one(W, plan)
            res = {"bad": judge(W, prop, plan, w, err), "err": err}
            if w is not None:
                res.update(digest=w.digest, stats=w.stats, sim=w.sim_time, steps=w.steps,
                           nontrivial=bool(W.nontrivial(prop, w)),
                           shapes=list(w.shapes)[:500])
            w = None
            if res["bad"]:
                clean = Z.run(plan)
                if not clean["bad"]:
                    # left over from another run in this process
                    carried += 1
                    forked = True
                res = clean
        bad = res["bad"]
        if "digest" not in res and not bad:
            errors.append([i, res["err"]])
            if len(errors) > 20:
                break
        if "digest" in res:
            for k, v in res["stats"].items():
                stats[k] = stats.get(k, 0) + v
            sim += res["sim"]
            steps += res["steps"]
            if res["nontrivial"]:
                nontrivial += 1
                digests.add(res["digest"])
                if len(samples) < 2 and plan_size(plan) < 9000:
                    samples.append({"seed": f"{seed}:{prop}:{i}", "plan": plan,
                                    "digest": res["digest"], "stats": dict(res["stats"])})
            for x in res["shapes"]:
                if len(shapes) < 200_000:
                    shapes.add(x)
            if runs % 64 == 1:
                redo += 1
                if Z.run(plan).get("digest") != res["digest"]:
                    mismatch += 1
        if bad:
            kind, msg = bad[0]
            small, tried = minimise(W, Z, plan, kind, job["shrink"])
            res = Z.run(small, True)
            bad2 = [m for k, m in res["bad"] if k == kind]
            emit({"t": "violation", "replay": {
                "property": prop, "kind": kind, "message": bad2[0] if bad2 else msg,
                "world": job["world"], "seed": f"{seed}:{prop}:{i}",
                "hashseed": int(os.environ["PYTHONHASHSEED"]),
                "digest": res.get("digest"), "plan": small,
                "minimised_from_bytes": plan_size(plan),
                "minimised_to_bytes": plan_size(small), "minimise_runs": tried,
                "trace": res.get("trace", [])}})
        if runs % 50 == 0:
            gc.collect()
        i += job["nshards"]
    emit({"t": "final", "runs": runs, "nontrivial": nontrivial, "digests": sorted(digests),
          "shapes": len(shapes), "stats": stats, "errors": errors, "sim": sim,
          "steps": steps, "samples": samples, "carried": carried, "redo": redo, "mismatch": mismatch,
          "wall": time.monotonic() - t0})


def replay(path):
    limits()
    r = json.load(open(path))
    W = importlib.import_module(r["world"])
    w, err = one(W, r["plan"], True)
    bad = judge(W, r["property"], r["plan"], w, err)
    if w is None and not bad:
        print("replay error:", err)
        return 3
    if "-v" in sys.argv:
        for t in w.trace if w else []:
            print(*t)
    for k, m in bad:
        print(f"{r['property']} {k}: {m}")
    same = w is not None and w.digest == r["digest"]
    print("digest", "identical" if same else "differs")
    return 1 if any(k == r["kind"] for k, _ in bad) else 0


if __name__ == "__main__":
    if sys.argv[1] == "search":
        search(json.load(open(sys.argv[2])))
    else:
        sys.exit(replay(sys.argv[2]))
