"""Concurrent clients on one primary, with crashes and disk errors."""
from .. import gen, model, ops, oracle

SHRINK = [("faults",), ("clients",), ("clients", "*"), ("setup",)]


WEIGHTS = dict(
    files=dict(upload=20, del_file=8, del_version=4, del_project=3, docs=4, tox=4, push=8,
               index_delete=1, index_create=2, simple=6, file_get=8, version_get=4),
    hot=dict(upload=14, del_file=5, del_version=4, del_project=4, docs=3, tox=4, push=5, register=5,
             index_modify=5, index_delete=1, index_create=3, user_modify=4, user_delete=0.7, user_create=2,
             simple=6, version_get=4, project_get=4, index_get=3, simple_all=2, user_list=2, file_get=4),
    reject=dict(upload=16, register=6, docs=8, tox=8, push=14, del_file=5, del_version=5, del_project=4,
                index_create=4, index_modify=5, index_delete=2, user_create=4, user_modify=3, user_delete=1,
                simple=3, version_get=4, index_get=2, user_get=2),
    auth=dict(user_create=4, user_modify=14, user_delete=3, login=14, index_create=4, index_modify=14,
              index_delete=2, register=4, upload=12, docs=3, tox=6, del_file=4, del_version=4, del_project=3,
              push=8, user_get=3, index_get=4, version_get=2, simple=1, api_get=14),
    pwrace=dict(user_modify=20, api_get=30, login=4, index_modify=3, upload=4, user_delete=2, user_create=3),
    nonvolatile=dict(upload=24, docs=10, register=3, tox=3, push=14, del_file=5, del_version=4, del_project=3,
                     index_modify=4, index_delete=2, index_create=2, user_delete=1, user_create=1,
                     simple=6, version_get=6, file_get=8, project_get=3),
    delete=dict(upload=20, docs=6, tox=6, register=4, push=6, del_file=8, del_version=8, del_project=8,
                index_delete=4, index_create=8, user_delete=3, user_create=6, simple=6, simple_all=4,
                project_get=5, version_get=5, index_get=4, file_get=6),
    push=dict(upload=20, docs=6, tox=6, register=3, push=26, del_file=3, del_version=2, index_modify=3,
              simple=5, version_get=6, file_get=5, project_get=2),
    inherit=dict(upload=16, register=3, del_file=3, del_version=2, del_project=3, push=3, index_modify=10,
                 index_create=3, index_delete=2, simple=14, simple_all=8, project_get=8, version_get=8),
)


def plan(seed, profile="mixed", **kw):
    rng = gen.rng_for("store-" + profile, seed)
    users = ("u0", "u1")
    stages = ("u0/dev", "u0/prod", "u1/dev")
    if profile == "inherit":
        stages = ("u0/dev", "u0/prod", "u1/dev", "u1/x", "u0/y")
    nproj, nver = rng.choice([1, 2, 2]), rng.choice([1, 2, 2])
    if profile in ("hot", "nonvolatile"):
        nproj, nver = 1, rng.choice([1, 1, 2])
        if profile == "hot":
            stages = stages[:rng.choice([1, 2, 2])]
    if profile == "delete":
        nproj, nver = rng.choice([1, 1, 2]), rng.choice([1, 2, 3])
    g = gen.Gen(rng, users, stages, projects=nproj, versions=nver, weights=WEIGHTS.get(profile))
    if profile in ("auth", "pwrace"):
        g.passwords = True
        g.token_p = 0.5
    if profile == "pwrace":
        g.token_p = 0.15
        g.users = [users[0], users[0], users[0], users[1]]
    if profile == "reject":
        g.invalid_p = 0.3
        g.force_p = 0.1
    if profile in ("nonvolatile",):
        g.force_p = 0.1
    if profile == "delete":
        g.force_p = 0.6
    if profile == "inherit":
        g.bases_p = 0.8
    n = rng.choice([1, 2, 3, 4, 6]) if profile != "crash" else rng.choice([1, 2, 3])
    if profile in ("hot", "nonvolatile", "pwrace"):
        n = rng.choice([2, 3, 4, 6, 8])
    total = kw.get("ops") or rng.choice([20, 40, 60])
    clients = [dict(name=f"c{i}", user=None, ops=[g.op() for _ in range(max(1, total // n))])
               for i in range(n)]
    if profile == "pwrace" and rng.random() < 0.8:
        # one changes the password, the others keep on using old and new ones
        u = users[0]
        clients[0]["ops"] = [
            dict(op="user_modify", user=u, kw=dict(password=["alt" + u, "pw" + u][i % 2]), **{"as": "root"})
            for i in range(rng.choice([4, 8, 15]))]
        for c in clients[1:]:
            c["ops"] = []
            for _ in range(rng.choice([8, 15, 30])):
                o = g.op() if rng.random() < 0.15 else dict(op="api_get", **{"as": u})
                o["pw"] = rng.choice(["alt" + u, "pw" + u])
                c["ops"].append(o)
    if profile in ("hot", "pwrace"):
        for c in clients:
            for o in c["ops"]:
                o.pop("d", None)
    if profile == "delete" and rng.random() < 0.5:
        for _ in range(rng.choice([1, 2])):
            ops_ = rng.choice(clients)["ops"]
            i = rng.randrange(len(ops_) + 1)
            ops_[i:i] = regrow(rng, g, rng.choice(stages))
    faults = []
    r = rng.random()
    if profile == "crash" or (profile in ("mixed", "files") and r < 0.35) or (
            profile in ("delete", "push", "nonvolatile") and r < 0.2):
        for _ in range(rng.choice([1, 1, 2, 3])):
            faults.append(gen.crash(rng, "primary"))
    if profile in ("disk",) or (profile == "mixed" and 0.35 <= r < 0.55) or (
            profile in ("push", "delete", "reject") and 0.2 <= r < 0.4):
        for _ in range(rng.choice([1, 2, 4])):
            faults.append(disk_fault(rng, "primary"))
        if rng.random() < 0.3:
            faults.append(dict(type="disk_full", node="primary", at=round(rng.random() * 2, 2),
                               duration=round(rng.random() * 2, 2)))
    if profile == "mixed" and 0.55 <= r < 0.65:
        faults.append(dict(type="stop", node="primary", at=round(rng.random() * 3, 2), restart=0.5))
    if profile == "auth":
        for c in clients:
            for o in c["ops"]:
                if rng.random() < 0.3:
                    o["d"] = round(rng.random() * rng.choice([1, 5]), 2)
        if r < 0.7:
            for _ in range(rng.choice([1, 2, 3, 6])):
                faults.append(dict(type="skew", node="primary", at=round(rng.random() * 4, 2),
                                   delta=rng.choice([-40000, -3000, -5, 5, 3000, 20000, 35000, 40000])))
    schedule = gen.sched(rng)
    if profile == "bulk":
        # large changes which fail in the middle
        big = rng.choice(stages)
        load = []
        for pi, (name, fn) in enumerate(gen.PROJECTS[:rng.choice([1, 2, 3])]):
            for version in gen.VERSIONS[:rng.choice([1, 2, 3])]:
                for kind in rng.choice([["sdist"], ["sdist", "wheel"]]):
                    f = gen.filename(rng, fn, version, kind)
                    load.append(dict(op="upload", stage=big, name=name, version=version, fn=f, var=0, kw={}, **{"as": "root"}))
                    if rng.random() < 0.4:
                        load.append(dict(op="tox", stage=big, fn=f, var=0, data=1, **{"as": "root"}))
                if rng.random() < 0.4:
                    load.append(dict(op="docs", stage=big, name=name, version=version, var=0, **{"as": "root"}))
        for o in load:
            o["as"] = big.split("/")[0]
        bulk = []
        user = big.split("/")[0]
        for _ in range(rng.choice([2, 4])):
            name, version, fn = g.release()
            bulk.append(rng.choice([
                dict(op="index_modify", stage=big, kw=dict(volatile=True), **{"as": "root"}),
                dict(op="index_delete", stage=big, **{"as": "root"}),
                dict(op="user_delete", user=user, **{"as": "root"}),
                dict(op="del_project", stage=big, name=name, force=True, **{"as": "root"}),
                dict(op="push", stage=big, name=name, version=version,
                     target=rng.choice([s for s in stages if s != big]), **{"as": user})]))
            if rng.random() < 0.5:
                bulk.append(dict(op="index_create", stage=big, kw={}, **{"as": user}))
        clients = [dict(name="load", user=None, ops=load + bulk + load[:3])] + [
            dict(name=f"c{i}", user=None, ops=[
                dict(o, d=round(rng.random() * 2, 2)) for o in (g.op() for _ in range(6))])
            for i in range(rng.choice([0, 1]))]
        kinds = ["index_delete", "user_delete", "del_project", "push"]
        for _ in range(rng.choice([1, 2])):
            if rng.random() < 0.6:
                faults.append(dict(gen.crash(rng, "primary"), nth=int(rng.expovariate(1.0) * 4), ops=kinds))
            else:
                faults.append(dict(disk_fault(rng, "primary"), nth=int(rng.expovariate(1.0) * 4), ops=kinds))
    if profile == "pwrace" and rng.random() < 0.6:
        schedule.setdefault("slow", {})[rng.choice(["db.write", "db.commit"])] = [
            rng.choice([0.2, 0.7]), rng.choice([0.01, 0.1, 0.5])]
    setup = gen.setup_ops(rng, users, stages) if rng.random() < 0.95 else []
    if profile == "nonvolatile":
        for o in setup:
            if o["op"] == "index_create":
                o["kw"]["volatile"] = rng.random() < 0.25
    if profile == "inherit":
        for i, o in enumerate(x for x in setup if x["op"] == "index_create"):
            if i and rng.random() < 0.8:
                o["kw"]["bases"] = rng.sample(stages[:i], min(i, rng.choice([1, 1, 2])))
    return dict(
        seed=seed, profile=profile, sched=schedule, net=dict(
            latency=[0.0005, rng.choice([0.002, 0.02, 0.2])],
            faults=dict(lose_response=rng.choice([0, 0, 0.03]), lose_request=rng.choice([0, 0, 0.02]))),
        passwords={u: "pw" + u for u in (*users, "u9")},
        cache=rng.choice([1, 30, 10000]),
        setup=setup, clients=clients, faults=faults)


def regrow(rng, g, stage):
    """fill something, delete it, build part of it again and look at it"""
    user = stage.split("/")[0]
    out = []
    name, fn = rng.choice(g.projects)
    for version in g.versions[:rng.choice([1, 2, 3])]:
        f = gen.filename(rng, fn, version)
        for kind, p in (("register", 0.3), ("upload", 0.9), ("tox", 0.4), ("docs", 0.4)):
            if rng.random() < p:
                o = dict(op=kind, stage=stage, **{"as": user})
                if kind in ("register", "upload"):
                    o.update(name=name, version=version, kw=g.meta())
                if kind == "docs":
                    o.update(name=name, version=version)
                if kind in ("upload", "tox"):
                    o.update(fn=f)
                if kind in ("upload", "tox", "docs"):
                    o.update(var=0)
                if kind == "tox":
                    o.update(data=rng.randrange(3))
                out.append(o)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(["index_delete", "user_delete", "del_project", "del_version", "del_file"])
        if k == "index_delete":
            out.append(dict(op=k, stage=stage, **{"as": user}))
        elif k == "user_delete":
            out.append(dict(op=k, user=user, **{"as": "root"}))
            out.append(dict(op="user_create", user=user, password="pw" + user, **{"as": "root"}))
        elif k == "del_project":
            out.append(dict(op=k, stage=stage, name=name, force=True, **{"as": user}))
        elif k == "del_version":
            out.append(dict(op=k, stage=stage, name=name, version=rng.choice(g.versions), force=True, **{"as": user}))
        else:
            out.append(dict(g.g_del_file(), stage=stage, force=True))
        out.append(dict(op="index_create", stage=stage, kw={}, **{"as": user}))
    k = rng.random()
    version = rng.choice(g.versions)
    if k < 0.6:
        out.append(dict(op="register", stage=stage, name=name, version=version, kw=g.meta(), **{"as": user}))
    elif k < 0.8:
        out.append(dict(op="docs", stage=stage, name=name, version=version, var=1, **{"as": user}))
    for k in ("simple", "project_get", "version_get", "simple_all"):
        o = dict(op=k, stage=stage, **{"as": None})
        if k != "simple_all":
            o["name"] = name
        if k == "version_get":
            o["version"] = version
        out.append(o)
    return out


def disk_fault(rng, node):
    kind = rng.choice(["fs.openw", "fs.write", "fs.close", "fs.rename", "fs.remove", "fs.mkdir",
                       "db.write", "db.write", "db.commit", "db.commit", "db.read", "db.open", "fs.openr"])
    nth = int(rng.expovariate(1.0) * (150 if kind in ("db.read", "db.open") else 20))
    return dict(type="disk", node=node, kind=kind, nth=nth, count=rng.choice([1, 1, 2, 5]),
                err=rng.choice(["EIO", "ENOSPC"]))


def run(world):
    plan = world.plan
    sim = world.sim
    prim = world.add_node("primary", args=["--keyfs-cache-size", str(plan.get("cache", 10000))])
    world.init_node(prim, "--no-root-pypi")
    prim.start()
    if not prim.wait_up():
        world.violation("restart-failed", f"primary does not start: {prim.fatal} {prim.log[-1:]}")
        return
    base = prim.last_serial()
    world.harness.passwords.update(plan.get("passwords", {}))
    for op in plan.get("setup", ()):
        ops.execute(world, world.harness, op)
    world.schedule_faults(plan.get("faults", ()))
    raw0 = prim.raw_changelog()
    if not world.run_clients(plan["clients"]):
        return
    if not world.stop_faults():
        return
    faulty = any(f["type"] in ("disk", "disk_rate", "disk_full") for f in plan.get("faults", ()))
    crashed = prim.crashes > 0
    oracle.check_changelog(world, prim, raw0)
    lin = oracle.linearize(world, base, model.initial(), background=background)
    oracle.check_responses(world, lin, allow_5xx=faulty)
    oracle.check_kv(world, prim)
    oracle.check_disk_files(world, prim, orphans=not faulty and not crashed and not prim.stops)
    oracle.dump_check(world, prim, lin.at(lin.last), min_serial=lin.last)
    # the same after an orderly restart
    if sim.rng.random() < 0.3:
        if not prim.stop():
            world.violation("shutdown-hang", "primary did not stop")
            return
        if not prim.restart():
            world.violation("restart-failed", f"{prim.fatal} {prim.log[-1:]}")
            return
        oracle.dump_check(world, prim, lin.at(lin.last), cls="restart-state", min_serial=lin.last)


def background(serial, changes):
    return "no request made this commit"
