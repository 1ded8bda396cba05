"""A primary with replicas: network faults, crashes and restarts everywhere."""
import os

from .. import core, gen, model, ops, oracle

SHRINK = [("faults",), ("clients",), ("clients", "*"), ("setup",), ("late",)]

CONVERGE = 900      # simulated seconds after the last fault

REPLICA_CRASH = gen.CRASH_KINDS + [("net.send", 3), ("net.chunk", 3)]


def net_faults(rng):
    if rng.random() < 0.35:
        return {}
    f = {}
    for k, p in (("lose_request", 0.03), ("lose_response", 0.03), ("refuse", 0.03),
                 ("truncate", 0.05), ("slow", 0.03), ("connect_timeout", 0.01)):
        if rng.random() < 0.4:
            f[k] = round(p * rng.choice([0.3, 1, 3]), 4)
    return f


def plan(seed, profile="mixed", **kw):
    rng = gen.rng_for("repl-" + profile, seed)
    users = ("u0", "u1")
    stages = ("u0/dev", "u0/prod", "u1/dev")
    g = gen.Gen(rng, users, stages, projects=rng.choice([1, 2]), versions=rng.choice([1, 2, 2]))
    if profile == "files":
        g.weights = dict(upload=24, del_file=10, del_version=4, del_project=3, docs=4, tox=4, push=6,
                         index_delete=1, index_create=2, simple=6, file_get=14, version_get=2)
    elif profile == "ryw":
        g.weights = dict(g.weights, simple=12, version_get=8, file_get=8, index_get=8)
    replicas = ["r1"] if rng.random() < 0.6 else ["r1", "r2"]
    n = rng.choice([2, 3, 4])
    total = kw.get("ops") or rng.choice([20, 30, 50])
    clients = []
    for i in range(n):
        node = rng.choice(["primary", *replicas, *replicas])
        if profile == "ryw" and i < 2:
            node = "r1"
        o = [g.op() for _ in range(max(1, total // n))]
        for x in o:
            if rng.random() < 0.15:
                x["d"] = round(rng.random() * rng.choice([1, 10]), 3)
        if profile == "ryw":
            # look at it right after writing
            o = [y for x in o for y in ([x, g.read_of(x)] if rng.random() < 0.6 else [x]) if y is not None]
        clients.append(dict(name=f"c{i}", node=node, ops=o))
    faults = []
    if profile == "crash":
        for _ in range(rng.choice([1, 2, 3, 5])):
            faults.append(gen.crash(rng, rng.choice([*replicas, *replicas, "primary"]), kinds=REPLICA_CRASH))
    elif profile != "calm":
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if r < 0.35:
                faults.append(gen.crash(rng, rng.choice(replicas), kinds=REPLICA_CRASH))
            elif r < 0.5:
                faults.append(gen.crash(rng, "primary"))
            elif r < 0.75:
                faults.append(dict(type="partition", a="primary", b=rng.choice(replicas),
                                   at=round(rng.random() * 5, 2),
                                   duration=round(rng.choice([0.5, 5, 40]) * rng.random(), 2)))
            elif r < 0.82:
                faults.append(dict(type="stop", node=rng.choice(["primary", *replicas]),
                                   at=round(rng.random() * 4, 2), restart=round(rng.random() * 3, 2)))
            elif r < 0.92:
                f = dict(type="disk", node=rng.choice(replicas), kind=rng.choice(
                    ["fs.openw", "fs.write", "fs.rename", "fs.close", "db.commit", "db.write", "db.read"]),
                    nth=int(rng.expovariate(1.0) * 12), count=rng.choice([1, 2]), err=rng.choice(["EIO", "ENOSPC"]))
                faults.append(f)
            else:
                faults.append(dict(type="skew", node=rng.choice(["primary", *replicas]),
                                   at=round(rng.random() * 4, 2), delta=rng.choice([-4000, -30, 30, 200])))
    sched = gen.sched(rng)
    latency = [0.0005, rng.choice([0.002, 0.02, 0.2])]
    if profile == "ryw" and rng.random() < 0.6:
        # a fast network and slow disks: news arrive long before they are stored
        latency = [0.0001, 0.001]
        sched["slow"] = {rng.choice(["db.write", "db.commit", "lock"]): [0.4, rng.choice([0.05, 0.3, 2.0])]}
    faulty = {} if profile == "calm" else net_faults(rng)
    rng2 = gen.rng_for("repl-search-" + profile, seed)
    if profile in ("files", "mixed") and rng2.random() < 0.3:
        faulty["garble"] = rng2.choice([0.05, 0.2, 0.5])
    if profile != "calm" and rng2.random() < 0.25:
        for _ in range(rng2.choice([1, 1, 3])):
            faults.append(dict(
                type="disk", node="primary", kind=rng2.choice(
                    ["fs.openw", "fs.write", "fs.close", "fs.rename", "fs.rename", "fs.mkdir", "db.write", "db.commit",
                     "db.commit", "db.read"]),
                nth=int(rng2.expovariate(1.0) * 12), count=rng2.choice([1, 1, 2, 5]),
                err=rng2.choice(["EIO", "ENOSPC"])))
    search = None
    if profile != "ryw" and rng2.random() < 0.3:
        search = dict(links=rng2.random() < 0.5, seed=rng2.randrange(10**9),
                      p=rng2.choice([0.5, 0.9]), bad=rng2.choice([0.0, 0.3, 0.8]))
    return dict(
        seed=seed, profile=profile, sched=sched, search=search,
        net=dict(latency=latency, faults=faulty),
        passwords={u: "pw" + u for u in (*users, "u9")},
        replicas=replicas, cache=rng.choice([1, 30, 10000]),
        streaming=rng.random() < 0.75, filethreads=rng.choice([1, 2, 5]),
        late=[r for r in replicas if rng.random() < 0.3],
        setup=gen.setup_ops(rng, users, stages), clients=clients, faults=faults)


def search_path(world, name):
    """existing files for a replica: right ones, outdated ones and broken ones."""
    plan = world.plan
    rng = gen.rng_for("search-" + name, plan["search"]["seed"])
    base = os.path.join(world.base, f"{name}.search")
    written = {}
    sub = rng.choice(["", "", "+files"])
    for c in plan["clients"]:
        for op in c["ops"]:
            if op["op"] != "upload" or rng.random() >= plan["search"]["p"]:
                continue
            content = model.file_content(op["fn"], op["var"])
            if rng.random() < 0.5:
                path = model.relpath(op["stage"], op["fn"], model.sha(content))
            else:
                path = os.path.join(op["stage"], model.normalize(op["name"]), op["version"], op["fn"])
            if rng.random() < plan["search"]["bad"]:
                n = rng.randrange(len(content))
                content = rng.choice([content[:n], content + b"x", content[:n] + b"~" + content[n + 1:], b""])
            written[os.path.join(sub, path)] = content
    with core.quiet():
        os.makedirs(os.path.join(base, sub))
        for path, content in written.items():
            p = os.path.join(base, path)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(content)
    world.search[name] = (base, written)
    return base


def make_nodes(world):
    plan = world.plan
    cache = ["--keyfs-cache-size", str(plan.get("cache", 10000))]
    prim = world.add_node("primary", args=["--role", "primary", *cache])
    world.init_node(prim, "--no-root-pypi", "--role", "primary")
    reps = []
    for name in plan["replicas"]:
        args = ["--file-replication-threads", str(plan.get("filethreads", 1)),
                "--proxy-timeout", "20", "--request-timeout", "5", *cache]
        if not plan.get("streaming", True):
            args.append("--no-replica-streaming")
        if plan.get("search"):
            args += ["--replica-file-search-path", search_path(world, name)]
            if plan["search"]["links"]:
                args.append("--hard-links")
        r = world.add_node(name, role="replica", primary_url="http://primary:3141", args=args)
        world.init_node(r, "--role", "replica", "--primary-url", "http://primary:3141")
        reps.append(r)
    return prim, reps


def start(world, node):
    node.start()
    if not node.wait_up(120):
        world.violation("restart-failed", f"{node.name} does not start: {node.fatal} {node.log[-2:]}")
        return False
    return True


def run(world):
    plan = world.plan
    sim = world.sim
    world.search = {}
    prim, reps = make_nodes(world)
    if not start(world, prim):
        return
    base = prim.last_serial()
    world.harness.passwords.update(plan.get("passwords", {}))
    for op in plan.get("setup", ()):
        ops.execute(world, world.harness, op)
    late = []
    for r in reps:
        if r.name in plan.get("late", ()):
            late.append(r)
        elif not start(world, r):
            return
    if late:
        world.pending += 1

        def starter():
            sim.sleep(2.0)
            for r in late:
                if not r.alive:
                    r.start()
            world.pending -= 1
        sim.spawn(starter, "late-starter", quiet=1)
    world.schedule_faults(plan.get("faults", ()))
    raw0 = prim.raw_changelog()
    if not world.run_clients(plan["clients"]):
        return
    if not world.stop_faults():
        return
    judge(world, base, raw0, reps)


def judge(world, base, raw0, reps, **kw):
    plan = world.plan
    prim = world.primary
    faulty = any(f["type"] in ("disk", "disk_rate", "disk_full") for f in plan.get("faults", ()))
    oracle.check_changelog(world, prim, raw0)
    lin = oracle.linearize(world, base, model.initial())
    oracle.check_responses(world, lin, allow_5xx=faulty or bool(plan.get("faults")) or bool(
        plan.get("net", {}).get("faults")))
    oracle.check_kv(world, prim)
    oracle.check_disk_files(world, prim)
    for r in reps:
        converge(world, prim, r, lin)
    for name, (path, written) in sorted(world.search.items()):
        world.note_check("search-path")
        for p, content in sorted(written.items()):
            with core.quiet(), open(os.path.join(path, p), "rb") as f:
                if f.read() != content:
                    world.violation("search-path", f"{name} changed {p} in its search path")
    return lin


def converge(world, prim, r, lin, limit=CONVERGE):
    """the replica catches up in bounded time and has exactly the same data."""
    sim = world.sim
    t0 = sim.now
    world.note_check("convergence")

    def serial_ok():
        return r.last_serial() >= prim.last_serial()
    while not serial_ok() and sim.now < t0 + limit and r.alive:
        sim.sleep(1.0)
    if not serial_ok():
        world.violation(
            "no-convergence", f"{r.name} is at serial {r.last_serial()} ({r.state}), the primary at "
            f"{prim.last_serial()} {limit}s after the last fault {r.log[-1:]}")
        return False
    check_prefix(world, prim, r)
    oracle.check_changelog(world, r)
    oracle.check_kv(world, r)
    # files
    state = prim.state_at()
    entries = oracle.file_entries(state)
    wanted = {p: v for p, v in entries.items() if v.get("last_modified") is not None}

    def missing():
        # a download with a wrong checksum is only repeated on demand
        return [p for p in sorted(wanted) if r.file_content(p) is None
                and not any(n == r.name and path == "/" + p for n, path, t in sim.net.garbled)]

    def extra():
        return [p for p in oracle.disk_files(r) if p not in entries and not p.endswith("-tmp")]
    while (missing() or extra()) and sim.now < t0 + limit:
        sim.sleep(2.0)
    m = missing()
    if m:
        world.violation(
            "replica-file-missing", f"{r.name} has no content for {m[:4]} ({len(m)}) "
            f"{limit}s after the last fault")
    m = extra()
    if m:
        world.violation(
            "replica-file-extra", f"{r.name} still has the content of deleted files {m[:4]} "
            f"{limit}s after the last fault")
    oracle.check_disk_files(world, r, missing_ok=set(wanted))
    oracle.dump_check(world, r, lin.at(lin.last), cls="replica-state", min_serial=lin.last)
    world.sim.states.add(f"converged:{r.crashes}:{prim.crashes}:{min(8, int((sim.now - t0) / 10))}")
    return True


def check_prefix(world, prim, r):
    world.note_check("prefix")
    mine = r.changelog()
    theirs = prim.changelog()
    for s in sorted(mine):
        if s not in theirs:
            world.violation("replica-diverged", f"{r.name} has serial {s} which the primary does not have")
            return
        if mine[s][0] != theirs[s][0]:
            world.violation(
                "replica-diverged", f"{r.name} differs at serial {s}: "
                + oracle.diff(mine[s][0], theirs[s][0]))
            return
