"""Determinism: python -m dst.selfcheck scenario[:profile] n - every seed runs
in two different worker processes, the complete event logs must be equal."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-m", "dst.selfcheck", *sys.argv[1:]])


def main():
    from . import boot, engine, scenarios
    boot.boot()
    bad = 0
    for name in sys.argv[1].split(","):
        name, _, profile = name.partition(":")
        mod = scenarios.get(name)
        kw = dict(profile=profile) if profile else {}
        n = int(sys.argv[2])
        digests = {}
        for rnd in range(2):
            pool = engine.Pool(8)
            pool.start(lambda i, w: [(s, name, mod.plan(s, **kw))
                                     for s in range((i + rnd * 3) % w, n, w)])
            for msg in pool.results():
                if msg is None:
                    continue
                key, _, _, res = msg
                d = (res["digest"], res["steps"], res["sim_time"], str(res["violations"]), res["error"])
                if digests.setdefault(key, d) != d:
                    bad += 1
                    print("NOT DETERMINISTIC", name, profile, key, digests[key][:3], d[:3])
        print(name, profile, "seeds", len(digests), "distinct digests", len({d[0] for d in digests.values()}))
    engine.cleanup()
    return 1 if bad else 0


sys.exit(main())
