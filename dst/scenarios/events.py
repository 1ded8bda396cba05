"""Plugin hooks are called for every committed change, in order, in spite of
crashes, failing plugins and slow disks, on the primary and on replicas."""
from .. import core, gen, model, oracle
from . import repl, store

SHRINK = [("faults",), ("clients",), ("clients", "*"), ("setup",)]

BOUND = 600


def plan(seed, profile="primary", **kw):
    rng = gen.rng_for("events-" + profile, seed)
    if profile == "replica":
        p = repl.plan(seed, rng.choice(["mixed", "crash", "files"]), ops=rng.choice([15, 25]))
        # errors of the disk can make the database unreadable for a subscriber
        p["faults"] = [f for f in p["faults"] if f["type"] not in ("disk", "skew")]
        # a file which arrived with wrong content is not fetched again by
        # itself (see R02) and its event waits for it
        p["net"]["faults"].pop("garble", None)
        p["search"] = None
        p["replicas"] = p["replicas"][:1]
        p["faults"] = [f for f in p["faults"] if "r2" not in (f.get("node"), f.get("b"))]
        p["late"] = [x for x in p["late"] if x in p["replicas"]]
        for c in p["clients"]:
            if c["node"] == "r2":
                c["node"] = "r1"
    else:
        p = store.plan(seed, rng.choice(["mixed", "files", "hot", "delete", "push"]), ops=rng.choice([15, 30]))
        p["faults"] = [f for f in p["faults"] if f["type"] == "stop"]
        p["replicas"] = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            p["faults"].append(gen.crash(rng, "primary"))
    nodes = ["primary", *p["replicas"]]
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        # around the notification thread's own steps
        p["faults"].append(dict(
            type="crash", node=rng.choice(nodes), task="TxNotificationThread", state="up",
            kind=rng.choice(["fs.rename", "fs.rename", "fs.after-rename", "fs.write", "fs.close", "fs.openw", "db.read", "hook"]),
            nth=int(rng.expovariate(1.0) * 8), restart=round(rng.choice([0.1, 1.0]) * rng.random(), 3)))
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        # the position cannot be stored
        p["faults"].append(dict(
            type="disk", node=rng.choice(nodes), kind=rng.choice(["fs.openw", "fs.write", "fs.close", "fs.rename"]),
            nth=int(rng.expovariate(1.0) * 5), count=rng.choice([1, 1, 2, 5]), err=rng.choice(["EIO", "ENOSPC"]),
            match=".event_serial"))
    p.update(seed=seed, profile=profile,
             slow_hooks=rng.choice([0, 0, 0.1, 0.5]), fail_hooks=rng.choice([0, 0, 0.1, 0.3]))
    return p


class Recorder:
    """a plugin"""

    def __init__(self, world, node):
        self.world = world
        self.node = node
        self.calls = []     # (life, serial, event, file exists)
        self.life = 0

    def rec(self, stage, *event, exists=None):
        sim = self.world.sim
        plan = self.world.plan
        life = self.node.gen
        serial = self.xom.keyfs.tx.at_serial
        self.calls.append((life, serial, event, exists))
        sim.point("hook")
        if self.world.faults_over:
            return
        if plan["slow_hooks"] and sim.fault_rng.random() < plan["slow_hooks"]:
            sim.count("fault:slow-plugin")
            sim.sleep(sim.fault_rng.choice([0.05, 1.0, 7.0]))
        if plan["fail_hooks"] and sim.fault_rng.random() < plan["fail_hooks"]:
            sim.count("fault:failing-plugin")
            raise sim.fault_rng.choice([ValueError, OSError, KeyError, RuntimeError])("plugin failed")

    def plugin(self):
        from pluggy import HookimplMarker
        hookimpl = HookimplMarker("devpiserver")
        rec = self.rec
        recorder = self

        def sname(stage):
            return None if stage is None else stage.name

        class Plugin:
            @hookimpl
            def devpiserver_pyramid_configure(self, config, pyramid_config):
                recorder.xom = pyramid_config.registry["xom"]

            @hookimpl
            def devpiserver_on_changed_versiondata(self, stage, project, version, metadata):
                rec(stage, "versiondata", sname(stage), project, version, norm(metadata or {}))

            @hookimpl
            def devpiserver_on_upload(self, stage, project, version, link):
                rec(stage, "upload", sname(stage), project, version, link.relpath, exists=link.entry.file_exists())

            @hookimpl
            def devpiserver_on_remove_file(self, stage, relpath):
                rec(stage, "remove", relpath)

            @hookimpl
            def devpiserver_stage_created(self, stage):
                rec(stage, "created", sname(stage))
        return Plugin()


def norm(x):
    if hasattr(x, "items"):
        return tuple(sorted((k, norm(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)) or type(x).__name__.startswith(("ListView", "SeqView", "TupleView")):
        return tuple(norm(v) for v in x)
    if isinstance(x, (set, frozenset)) or type(x).__name__.startswith("SetView"):
        return tuple(sorted(x))
    return x


def expected(log):
    """serial -> list of events"""
    state = {}
    hist = {}
    out = {}
    for s in sorted(log):
        changes = log[s][0]
        for relpath, (keyname, back, val) in changes.items():
            state[relpath] = val
            hist.setdefault(relpath, {})[s] = val
        evs = []

        def stage(user, index):
            u = state.get(f"{user}/.config") or {}
            return f"{user}/{index}" if index in u.get("indexes", {}) else None
        for relpath, (keyname, back, val) in changes.items():
            old = (hist[relpath].get(back) if back > -1 else None) or {}
            if keyname == "PROJVERSION":
                new = val or {}
                if new != old:
                    src = new or old
                    user, index = relpath.split("/")[:2]
                    evs.append(("versiondata", stage(user, index), src["name"], src["version"], norm(new)))
            elif keyname == "STAGEFILE":
                user, index = relpath.split("/")[:2]
                v = val or {}
                if not v.get("project") or not v.get("version"):
                    evs.append(("remove", relpath))
                elif stage(user, index):
                    pv = state.get(f"{user}/{index}/{v['project']}/{v['version']}/.config") or {}
                    base = relpath.rsplit("/", 1)[1]
                    links = [e for e in pv.get("+elinks", ()) if e["entrypath"].rsplit("/", 1)[1] == base]
                    if len(links) == 1:
                        evs.append(("upload", stage(user, index), v["project"], v["version"], links[0]["entrypath"]))
            elif keyname == "USER":
                for index in (val or {}).get("indexes", {}):
                    if index not in old.get("indexes", {}):
                        evs.append(("created", f"{relpath.split('/')[0]}/{index}"))
        out[s] = evs
    return out


def run(world):
    plan = world.plan
    sim = world.sim
    replicas = plan["replicas"]
    if replicas:
        prim, reps = repl.make_nodes(world)
    else:
        prim = world.add_node("primary", args=["--keyfs-cache-size", str(plan.get("cache", 10000))])
        world.init_node(prim, "--no-root-pypi")
        reps = []
    recs = []
    for n in (prim, *reps):
        r = Recorder(world, n)
        n.plugins = (r.plugin(),)
        recs.append(r)
    if not repl.start(world, prim):
        return
    world.harness.passwords.update(plan.get("passwords", {}))
    base = prim.last_serial()
    from .. import ops
    for op in plan.get("setup", ()):
        ops.execute(world, world.harness, op)
    for r in reps:
        if not repl.start(world, r):
            return
    world.schedule_faults(plan.get("faults", ()))
    raw0 = prim.raw_changelog()
    if not world.run_clients(plan["clients"]):
        return
    if not world.stop_faults():
        return
    oracle.check_changelog(world, prim, raw0)
    exp = expected(prim.changelog())
    deleted = {}    # file -> last serial in which it was deleted
    for s, (changes, _) in prim.changelog().items():
        for relpath, (keyname, _back, val) in changes.items():
            if keyname == "STAGEFILE" and not (val or {}).get("last_modified"):
                deleted[relpath] = max(s, deleted.get(relpath, -1))
    for n, rec in zip((prim, *reps), recs):
        t0 = sim.now
        if not sim.wait_until(lambda n=n: n.last_serial() >= prim.last_serial() and event_serial(n) >= prim.last_serial(), BOUND):
            world.violation(
                "events-stuck", f"{n.name}: changes are announced up to {event_serial(n)} only, last serial {n.last_serial()}, "
                f"primary {prim.last_serial()}, {sim.now - t0:.0f} s after the last fault")
            continue
        judge(world, n, rec, exp, deleted)


def event_serial(node):
    with core.quiet():
        try:
            with open(node.path(".event_serial"), "rb") as f:
                return int(f.read()) - 1
        except FileNotFoundError:
            return -1


def judge(world, node, rec, exp, deleted):
    runs = {}       # serial -> [list of events] per execution
    life = last = None
    cur = -1
    for l, s, ev, exists in rec.calls:
        world.note_check("event")
        if s not in exp:
            world.violation("event-wrong", f"{node.name}: {ev} for serial {s} which does not exist")
            return
        if l != life:
            if life is not None and s < cur:
                world.violation(
                    "event-order", f"{node.name}: after a restart {ev} of serial {s} again, though serial {cur} was announced before")
            life = l
            runs.setdefault(s, []).append([])
        elif s < cur:
            world.violation("event-order", f"{node.name}: {ev} of serial {s} after events of serial {cur}")
        elif s != last:
            runs.setdefault(s, []).append([])
        last = s
        cur = max(cur, s)
        runs[s][-1].append(ev)
        if ev[0] == "upload" and not exists and deleted.get(ev[4], -1) <= s:
            world.violation("event-without-file", f"{node.name}: {ev} of serial {s} announced before the file is there")
    for s, evs in sorted(exp.items()):
        want = sorted(evs, key=repr)
        got = [sorted(r, key=repr) for r in runs.get(s, ())]
        world.note_check("event-serial")
        for r in got:
            for e in r:
                if e not in want:
                    world.violation("event-wrong", f"{node.name}: {e} for serial {s}, expected {want[:5]}")
                    return
        if not any(all(e in r for e in want) for r in got) and want:
            # the thread goes through the changes of a serial until its end
            world.violation(
                "event-lost", f"{node.name}: serial {s} was not announced completely: {got[:3]} expected {want}")
            return
