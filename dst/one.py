"""Debug helper: python -m dst.one scenario seed [profile] [n]"""
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-m", "dst.one", *sys.argv[1:]])


def main():
    from . import boot, engine, scenarios
    boot.boot()
    scenario, seed = sys.argv[1], int(sys.argv[2])
    kw = {}
    if len(sys.argv) > 3 and sys.argv[3] != "-":
        kw["profile"] = sys.argv[3]
    n = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    mod = scenarios.get(scenario)
    try:
        if n == 1:
            res = engine.child_run(scenario, mod.plan(seed, **kw))
            print(json.dumps({k: v for k, v in res.items() if k not in ("log",)}, indent=1)[:12000])
            return
        pool = engine.Pool(int(os.environ.get("POOL", "8")))
        pool.start(lambda i, w: [(s, scenario, mod.plan(s, **kw)) for s in range(seed + i, seed + n, w)])
        from collections import Counter
        c = Counter()
        shown = Counter()
        wall = sim = 0
        known = Counter()
        for msg in pool.results():
            if msg is None:
                continue
            key, sc, plan, res = msg
            wall += res["wall"]
            sim += res.get("sim_time", 0)
            c["runs"] += 1
            for k in res.get("known", ()):
                known[k["id"]] += 1
            if res.get("error"):
                c["ERROR"] += 1
                if shown["err"] < 3:
                    shown["err"] += 1
                    print("ERROR", key, res["error"][-1500:])
            if res.get("inconclusive"):
                c["inconclusive"] += 1
            for v in res["violations"]:
                c[v["cls"]] += 1
                if shown[v["cls"]] < int(os.environ.get("SHOW", "2")):
                    shown[v["cls"]] += 1
                    print(key, v["cls"], v["msg"][:900])
        print(dict(c), dict(known), f"wall/run {wall / max(1, c['runs']):.2f} sim {sim:.0f}")
    finally:
        engine.cleanup()


main()
