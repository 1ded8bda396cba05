"""The command behind check.py."""
import argparse
import json
import os
import sys
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.json")


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return dict(findings=[], fixed=[])


def jobs(prop, tier, seed):
    """all runs of this check as (key, scenario, profile, seed, kw)."""
    from . import props
    spec = props.PROPS[prop]
    total = int(spec["runs"] * float(os.environ.get("DST_RUNS_FACTOR", "1")))
    if tier == "thorough":
        total *= props.THOROUGH
    mix = []
    for part in spec["parts"]:
        mix.extend([part] * part.get("weight", 1))
    out = []
    counters = Counter()
    for i in range(total):
        part = mix[i % len(mix)]
        k = (part["scenario"], part["profile"])
        s = seed * 1000000 + counters[k]
        counters[k] += 1
        out.append((i, part["scenario"], part["profile"], s, part.get("kw", {})))
    return out


def make_plan(scenario, profile, seed, kw):
    from . import scenarios
    mod = scenarios.get(scenario)
    plan = mod.plan(seed, profile=profile, **kw)
    return plan


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    args = ap.parse_args(argv)
    from . import boot, core, engine, props
    t0 = core.real_time()
    boot.boot()
    try:
        if args.selftest:
            return selftest()
        if args.replay:
            return replay(args)
        return search(args, t0)
    finally:
        engine.cleanup()


def selftest():
    """two executions of the same plan are identical."""
    from . import engine
    for scenario, profile in (("store", "mixed"), ("store", "crash")):
        plan = make_plan(scenario, profile, 3, {})
        a, b = (engine.child_run(scenario, plan) for _ in range(2))
        if a.get("error"):
            print(f"{scenario}: {a['error']}", file=sys.stderr)
        elif a.get("digest") != b.get("digest"):
            print(f"{scenario}: {a.get('error')} {a.get('digest')} {b.get('digest')}", file=sys.stderr)
            return 2
    print("ok")
    return 0


def replay(args):
    from . import engine
    with open(args.replay) as f:
        rp = json.load(f)
    res = engine.child_run(rp["scenario"], rp["plan"])
    print(json.dumps(dict(
        violations=res["violations"], error=res.get("error"), digest=res.get("digest"),
        same_digest=res.get("digest") == rp["digest"]), indent=1))
    for line in res.get("log", ())[-60:]:
        print("  ", " ".join(line))
    if any(v["cls"] == rp["violation"]["cls"] for v in res["violations"]) or (
            rp["violation"]["cls"] == "hang" and res.get("error") == "hang"):
        print(f"VIOLATION property={rp['property']} replay={args.replay}")
        return 1
    return 0


def search(args, t0):
    from . import core, engine, props
    prop = args.property
    spec = props.PROPS[prop]
    classes = spec.get("classes")
    known_list = load_known()["findings"]
    wall_cap = 300 if args.tier == "quick" else 3300
    all_jobs = jobs(prop, args.tier, args.seed)

    def jobs_for(i, n):
        for key, scenario, profile, seed, kw in all_jobs[i::n]:
            yield key, scenario, make_plan(scenario, profile, seed, kw)

    st = dict(runs=0, sim=0.0, steps=0, switches=0, errors=[], inconclusive=0, wall=0.0)
    stats, checks, other, known = Counter(), Counter(), Counter(), {}
    states, digests = set(), set()
    samples = []
    nontrivial = 0
    found = None
    hang = None
    pool = engine.Pool(args.jobs)
    pool.start(jobs_for)
    capped = False
    per_scenario = Counter()
    try:
        for msg in pool.results():
            if core.real_time() - t0 > wall_cap:
                capped = True
                break
            if msg is None:
                continue
            key, scenario, plan, res = msg
            st["runs"] += 1
            per_scenario[f"{scenario}/{plan.get('profile')}"] += 1
            st["wall"] += res.get("wall", 0)
            if res.get("error"):
                if res["error"] == "hang":
                    hang = hang or (scenario, plan)
                st["errors"].append((scenario, plan["seed"], plan.get("profile"), res["error"]))
                if len(st["errors"]) >= 8:
                    break
                continue
            if res.get("inconclusive"):
                st["inconclusive"] += 1
            st["sim"] += res["sim_time"]
            st["steps"] += res["steps"]
            st["switches"] += res["switches"]
            stats.update(res["stats"])
            checks.update(res["checks"])
            states.update(res["states"])
            new = res["digest"] not in digests
            digests.add(res["digest"])
            faults = sum(n for k, n in res["stats"].items() if k.startswith("fault:"))
            if new and res["switches"] > 5 and sum(res["checks"].values()) > 0:
                nontrivial += 1
            if len(samples) < 3:
                samples.append(dict(
                    scenario=scenario, seed=plan["seed"], profile=plan.get("profile"),
                    sim_seconds=res["sim_time"], steps=res["steps"], faults=faults,
                    fault_plan=plan.get("faults", [])[:6],
                    clients=[dict(name=c["name"], ops=len(c["ops"])) for c in plan.get("clients", ())][:8],
                    first_ops=[o for c in plan.get("clients", ())[:1] for o in c["ops"][:3]],
                    digest=res["digest"][:16]))
            for k in res["known"]:
                known.setdefault(k["id"], k)
            for v in res["violations"]:
                if classes is not None and v["cls"] not in classes:
                    other[v["cls"]] += 1
                    continue
                if found is None:
                    found = (scenario, plan, v, res)
            if found:
                break
    finally:
        pool.stop()
    code = 0
    violations = 0
    unlisted = {k: v for k, v in known.items()
                if not any(f["id"] == k and prop in f["properties"] for f in known_list)
                and any(k == kk for kk in known)}
    for k, v in sorted(known.items()):
        f = next((f for f in known_list if f["id"] == k), None)
        if f is not None:
            if prop in f["properties"]:
                print(f"KNOWN-FINDING: property={prop} {f['id']}: {f['what']}")
        elif found is None and (classes is None or v["cls"] in classes):
            print(f"finding {k} is not listed in known_findings.json: {v}", file=sys.stderr)
            found = None
            st["errors"].append(("known", 0, None, f"unlisted finding {k}: {v}"))
    del unlisted
    if found is None and hang is not None:
        # confirm in a quiet machine with a lot of time
        scenario, plan = hang
        res = engine.child_run(scenario, plan, timeout=200)
        if res.get("error") == "hang":
            found = (scenario, plan, dict(cls="hang", msg="the simulation does not make progress: "
                                          "some code loops without end", t=0), dict(digest=None))
    if found is not None:
        scenario, plan, v, res = found
        code = 1
        violations = 1
        best, tried = plan, 0
        if v["cls"] != "hang":
            budget = 30 if args.tier == "quick" else 120
            best, tried = engine.minimise(scenario, plan, v["cls"], budget)
            res = engine.child_run(scenario, best)
            v2 = next((x for x in res["violations"] if x["cls"] == v["cls"]), None)
            if v2 is None:      # cannot happen, runs are deterministic
                best = plan
                res = engine.child_run(scenario, best)
                v2 = v
            v = v2
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{scenario}-{plan['seed']}.json")
        with open(path, "w") as f:
            json.dump(dict(
                property=prop, scenario=scenario, seed=plan["seed"], plan=best, violation=v,
                digest=res.get("digest"), minimise_runs=tried,
                trace=res.get("log", [])[-300:]), f, indent=1)
        print(f"{v['cls']}: {v['msg']}")
        print(f"scenario {scenario} seed {plan['seed']} minimised with {tried} runs; "
              f"replay with: ./check.py {prop} --replay {path}")
        print(f"VIOLATION property={prop} replay={path}")
    elif st["errors"]:
        code = 2
        for e in st["errors"][:3]:
            print("HARNESS ERROR", e[0], "seed", e[1], e[2], e[3][-3000:], file=sys.stderr)
    elif st["runs"] == 0:
        code = 2
    wall = core.real_time() - t0
    write_evidence(args, spec, st, stats, checks, states, digests, nontrivial, samples,
                   violations, wall, per_scenario, other, known, capped, len(all_jobs))
    print(f"{prop} {args.tier}: {st['runs']} runs, {st['sim']:.0f} simulated seconds, "
          f"{sum(n for k, n in stats.items() if k.startswith('fault:'))} faults, "
          f"{len(digests)} distinct histories, {sum(checks.values())} checks, {wall:.1f}s -> exit {code}")
    return code


def write_evidence(args, spec, st, stats, checks, states, digests, nontrivial, samples,
                   violations, wall, per_scenario, other, known, capped, planned):
    from . import props
    runs = st["runs"]
    ev = dict(
        property=args.property, tier=args.tier, seed=args.seed, level="exploration",
        coverage=dict(
            evaluations=runs,
            distinct_nontrivial=nontrivial,
            rule="one evaluation is one simulated execution of the real code, generated from its seed "
                 "(operations, timing, schedule and faults); distinct means its complete event log has a "
                 "hash seen in no other run of this check, non-trivial that more than 5 task switches "
                 "happened and at least one oracle check was evaluated",
            samples=samples,
            planned_runs=planned,
            stopped_by_wall_clock=capped,
            runs_by_scenario=dict(per_scenario),
            runs_per_hour=round(runs / wall * 3600) if wall else 0,
            seeds_per_hour=round(runs / wall * 3600) if wall else 0,
            simulated_seconds=round(st["sim"], 1),
            scheduler_steps=st["steps"],
            task_switches=st["switches"],
            faults_injected={k[6:]: n for k, n in sorted(stats.items()) if k.startswith("fault:")},
            crash_points={k[9:]: n for k, n in sorted(stats.items()) if k.startswith("crash-at:")},
            other_counters={k: n for k, n in sorted(stats.items())
                            if not k.startswith(("fault:", "crash-at:"))},
            distinct_event_logs=len(digests),
            distinct_states=len(states),
            states_measure="distinct (event kind, node role, life cycle state, ...) tuples noted by the simulator "
                           "at crashes, commits and checks",
            oracle_checks=dict(checks),
            inconclusive_runs=st["inconclusive"],
            violations_of_other_properties_seen=dict(other),
            known_findings_seen=sorted(known),
            real_components=props.REAL + spec.get("real", []),
            stubbed_components=props.STUBS + spec.get("stubs", []),
        ),
        assumptions=props.ASSUMPTIONS + spec.get("assumptions", []),
        violations=violations,
        wall_s=round(wall, 2))
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{args.property}.json"), "w") as f:
        json.dump(ev, f, indent=1)
