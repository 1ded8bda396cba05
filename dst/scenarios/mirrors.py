"""Private indexes which inherit from two mirrors of different upstreams: which
files an index shows and where they come from, while the upstreams change,
fail and get slow independently of each other."""
import hashlib

from .. import core, gen, model, ops, oracle
from . import mirror as M

SHRINK = [("windows",), ("faults",), ("clients",), ("clients", "*"), ("events",)]

MIRRORS = {"root/m1": "up1", "root/m2": "up2"}
STAGES = ["u0/dev", "u0/prod", "u0/team"]


def plan(seed, profile="order", **kw):
    rng = gen.rng_for("mirrors-" + profile, seed)
    projects = ["foo", "bar-baz"][:rng.choice([1, 1, 2])]
    span = rng.choice([20, 60, 200])
    ups = {}
    for k, name in enumerate(sorted(MIRRORS)):
        events = []
        for p in projects:
            if rng.random() < 0.15:
                continue
            for _ in range(rng.choice([1, 2, 4])):
                events.append(dict(at=0.0, project=p, do="add", fn=M.upfile(rng, p), var=10 * k, py=None))
        for _ in range(rng.choice([0, 0, 2, 5])):
            p = rng.choice(projects)
            events.append(dict(at=round(rng.random() * span, 2), project=p, do=rng.choice(["add", "add", "delfile", "yank"]),
                               fn=M.upfile(rng, p), var=10 * k + 1, py=None, n=rng.randrange(8)))
        events.sort(key=lambda e: e["at"])
        windows = []
        t = 0
        for _ in range(rng.choice([0, 0, 1, 2])):
            t += rng.random() * span / 2
            d = rng.choice([2, 20, 100]) * rng.random()
            windows.append([round(t, 2), round(t + d, 2), rng.choice(["500", "503", "404", "hang", "slow", "truncate", "403"])])
            t += d
        ups[name] = dict(
            cfg=dict(hashes=rng.random() < 0.8, json=rng.random() < 0.5, serials=rng.random() < 0.5,
                     etags=rng.random() < 0.6, lastmod=True),
            events=events, windows=windows, expiry=rng.choice([0, 10, 60]), noprojlist=rng.random() < 0.1)
    m = sorted(MIRRORS)
    rng.shuffle(m)
    a, b = m
    bases = rng.choice([
        [["u0/dev", [a, b]], ["u0/prod", [b, a]], ["u0/team", [b, "u0/dev"]]],
        [["u0/dev", ["u0/prod", a]], ["u0/prod", [b]], ["u0/team", ["u0/dev", "u0/prod"]]],
        [["u0/dev", [a, "u0/prod", "u0/team"]], ["u0/prod", [b, "u0/team"]], ["u0/team", [b, a]]],
        [["u0/dev", ["u0/prod", "u0/team"]], ["u0/prod", [a]], ["u0/team", [b]]],
    ])
    clients = []
    n = rng.choice([1, 2, 4])
    total = kw.get("ops") or rng.choice([15, 30, 45])
    for i in range(n):
        cops = []
        for _ in range(max(1, total // n)):
            st = rng.choice([*STAGES, *STAGES, *m])
            p = rng.choice(projects)
            r = rng.random()
            if r < 0.45:
                o = dict(op="simple", stage=st, name=p, json=rng.random() < 0.5)
            elif r < 0.62:
                o = dict(op="file", stage=st, name=p, n=rng.randrange(8))
            elif r < 0.7:
                o = dict(op="list", stage=st, json=rng.random() < 0.5)
            elif r < 0.75:
                o = dict(op="versions", stage=st, name=p)
            elif r < 0.82:
                fn = M.upfile(rng, p)
                o = dict(op="private", stage=rng.choice(STAGES), name=p, fn=fn, var=rng.choice([50, 51]),
                         version=fn.replace("-py3-none-any.whl", "").replace(".tar.gz", "").rsplit("-", 1)[1])
            elif r < 0.87:
                o = dict(op="delprivate", stage=rng.choice(STAGES), name=p)
            elif r < 0.95:
                o = dict(op="config", stage=rng.choice(STAGES), kw=rng.choice([
                    dict(mirror_whitelist=[p]), dict(mirror_whitelist=["*"]), dict(mirror_whitelist=[]),
                    dict(mirror_whitelist_inheritance=rng.choice(["union", "intersection"]))]))
            else:
                st = rng.choice(STAGES)
                o = dict(op="config", stage=st, kw=dict(bases=rng.sample(
                    [x for x in (*STAGES, *m) if x != st], rng.choice([1, 2, 2, 3]))))
            if rng.random() < 0.4:
                o["d"] = round(rng.random() * rng.choice([0.2, 5, span / 5]), 3)
            cops.append(o)
        clients.append(dict(name=f"c{i}", node="primary", ops=cops))
    faults = []
    if rng.random() < 0.2:
        faults.append(gen.crash(rng, "primary"))
    return dict(
        seed=seed, profile=profile, sched=gen.sched(rng),
        net=dict(latency=[0.0005, rng.choice([0.002, 0.02, 0.2])], slow_max=20.0, faults={}),
        ups=ups, projects=projects, bases=bases, cache=rng.choice([1, 30, 10000]),
        timeout=rng.choice([5, 2]), clients=clients, faults=faults)


def run(world):
    plan = world.plan
    sim = world.sim
    prim = world.add_node("primary", args=[
        "--keyfs-cache-size", str(plan["cache"]), "--request-timeout", str(plan["timeout"])])
    world.init_node(prim, "--no-root-pypi")
    prim.start()
    if not prim.wait_up():
        world.violation("restart-failed", f"primary does not start: {prim.fatal} {prim.log[-1:]}")
        return
    root = world.harness
    root.passwords["u0"] = "pwu0"
    for op in [
            dict(op="user_create", user="u0", password="pwu0"),
            *(dict(op="index_create", stage=s, kw=dict(
                type="mirror", mirror_url=f"http://{MIRRORS[s]}/simple/", mirror_cache_expiry=u["expiry"],
                mirror_no_project_list=u["noprojlist"])) for s, u in sorted(plan["ups"].items())),
            *(dict(op="index_create", stage=s, kw=dict(acl_upload=["u0"])) for s, b in plan["bases"]),
            *(dict(op="index_modify", stage=s, kw=dict(bases=b)) for s, b in plan["bases"])]:
        rec = ops.execute(world, root, dict(op, **{"as": "root"}))
        if rec.get("status") not in (200, 201):
            raise core.HarnessError(f"setup failed {op} {rec.get('status')} {rec.get('body')}")
    t0 = sim.now
    ups = {}
    for s, u in sorted(plan["ups"].items()):
        up = ups[s] = M.Upstream(world, MIRRORS[s], u["cfg"], u["events"], t0)
        up.windows = [(t0 + a, t0 + b, m) for a, b, m in u["windows"]]
        up.expiry = u["expiry"]
        up.noprojlist = u["noprojlist"]
        sim.net.add(MIRRORS[s], up)
    ha = M.Harness(world, None)
    world.schedule_faults(plan["faults"])
    tasks = []

    from ..world import Client

    def client(c):
        cl = Client(world, c["name"], None, c["node"])
        for op in c["ops"]:
            if op.get("d"):
                sim.sleep(op["d"])
            ha.run(cl, op)
    for c in plan["clients"]:
        tasks.append((c["name"], sim.spawn(lambda c=c: client(c), f"client-{c['name']}", quiet=1)))
    for name, t in tasks:
        if not sim.join(t, 60000):
            world.violation("client-stuck", f"client {name} did not finish")
            return
        if t.exc is not None:
            raise core.HarnessError(f"client {name}: {t.exc!r}") from t.exc
    end = max([t0 + e["at"] for up in plan["ups"].values() for e in up["events"]]
              + [b for up in ups.values() for a, b, m in up.windows] + [sim.now])
    if end > sim.now:
        sim.sleep(end - sim.now + 1)
    if not world.stop_faults():
        return
    during = len(ha.recs)
    final(world, ha, ups)
    states = M.States(prim)
    for rec in ha.recs[:during]:
        judge(world, states, ups, rec, False)
    for rec in ha.recs[during:]:
        judge(world, states, ups, rec, True)


def final(world, ha, ups):
    """upstreams are healthy and do not change: everything has to be there"""
    sim = world.sim
    sim.sleep(M.GRACE + 2 * max(u.expiry for u in ups.values()) + M.SLACK)
    for st in (*sorted(ups), *STAGES):
        for p in world.plan["projects"]:
            for i in range(6):
                rec = ha.run(world.harness, dict(op="simple", stage=st, name=p, json=sim.rng.random() < 0.5))
                if rec["t1"] - rec["t0"] < 0.9 * world.plan["timeout"]:
                    break
                ha.recs.pop()
                # slower than the configured timeout
                sim.sleep(max(u.expiry for u in ups.values()) + M.SLACK)
            for n in range(min(3, len(rec.get("links", ())))):
                ha.run(world.harness, dict(op="file", stage=st, name=p, n=n))
        ha.run(world.harness, dict(op="list", stage=st, json=True))


def judge(world, states, ups, rec, at_end):
    op = rec["op"]
    k = op["op"]
    world.note_check("mirrors-response")
    if "error" in rec:
        return
    st, p, status = op.get("stage"), op.get("name"), rec["status"]
    if "unparsable" in rec:
        world.violation("mirror-page", f"{rec['unparsable']}: {M.show(rec)}")
        return
    slow = any(world.plan["sched"].get(x) for x in ("stall_p", "slow", "slow_lock", "slow_io"))
    if status == 500 and "async loop" in str(rec.get("exc")) and slow:
        return      # a thread which needs more than 2 s to start
    if status == 500 and "KeyfsTimeoutError" in str(rec.get("exc")) + str(rec.get("body", b"")[:300]) and slow:
        return      # the database was locked for more than a minute
    t0, t1 = rec["t0"], rec["t1"]
    # the upstreams which may have been in trouble or may have answered late
    late = t1 - t0 >= 0.9 * world.plan["timeout"]
    bad = {s for s, up in ups.items() if late or any(
        a <= t1 and b + M.GRACE >= t0 - 2 * up.expiry - M.SLACK for a, b, m in up.windows)}
    if at_end and not late:
        bad = set()
    if status >= 500 and k in ("simple", "list", "versions", "file"):
        if status == 502 and (st in bad or k == "file" and bad):
            return
        if k == "file" and bad:
            return
        if st in ups and st in bad:
            return
        world.violation("mirrors-error", M.show(rec))
        return
    if k == "file":
        if status == 200:
            sha = hashlib.sha256(rec["body"]).hexdigest()
            world.note_check("mirrors-file")
            stage = "/".join(op["stage"].split("/")[:2])
            if rec["digest"] and sha != rec["digest"]:
                world.violation("mirror-corrupt", f"content does not match {rec['digest'][:12]}: {M.show(rec)}")
            elif not rec["digest"]:
                stage = "/".join(rec["path"].strip("/").split("/")[:2])
                if stage in ups and sha not in {
                        hashlib.sha256(M.content(rec["fn"], v)).hexdigest()
                        for v in {e["var"] for e in world.plan["ups"][stage]["events"]}}:
                    world.violation("mirror-corrupt", f"not the content of {stage}: {M.show(rec)}")
        elif at_end:
            world.violation("mirror-file-unservable", M.show(rec))
        return
    if k not in ("simple", "list"):
        return
    hi = rec["serial"] if rec["serial"] is not None else rec["hi"]
    lo = min(rec["lo"], hi)
    if k == "list":
        if status != 200:
            return
        problems = []
        for s in range(lo, hi + 1):
            problem = list_problem(states, ups, st, s, rec, bad, at_end)
            if problem is None:
                return
            problems.append(problem)
        world.violation("mirror-list", f"{problems[0]}: {M.show(rec)}")
        return
    if status not in (200, 404):
        if status != 403:
            world.violation("mirror-page", f"status {status}: {M.show(rec)}")
        return
    problems = []
    for s in range(lo, hi + 1):
        problem = page_problem(states, ups, st, p, s, rec, bad, at_end)
        if problem is None:
            return
        problems.append(problem)
    world.violation(*problems[0][:1], f"{problems[0][1]}: serial {lo}..{hi} {M.show(rec)}")


def offered(up, p, t0, t1, fn=None):
    """(everything offered at all, everything offered all the time) between"""
    lo, hi = up.version_no(t0), up.version_no(t1)
    some, always = {}, None
    for n in range(lo, hi + 1):
        links = up.links(n, p) or {}
        for f, d in links.items():
            some.setdefault(f, set()).add(d)
        here = set(links)
        always = here if always is None else always & here
    return some, always


def list_problem(states, ups, st, serial, rec, bad, at_end):
    names = set(rec["names"])
    order = [st] if st in ups else states.sro(st, serial)
    want = set()
    for s in order:
        if s in ups:
            up = ups[s]
            if s in bad or up.noprojlist:
                continue
            t = rec["t0"] - 2 * up.expiry - M.SLACK
            for p in world_projects(states, ups):
                if offered(up, p, t, rec["t1"])[1]:
                    want.add(p)
        else:
            want |= set(states.value(f"{s}/.projects", serial) or ())
    if not want <= names:
        return f"projects {sorted(want - names)} are missing"
    return None


def world_projects(states, ups):
    out = set()
    for up in ups.values():
        for t, v in up.versions:
            out |= {p for p in v if not p.startswith("+")}
    return out


def page_problem(states, ups, st, p, serial, rec, bad, at_end):
    links = rec.get("links", {})
    order = [st] if st in ups else states.sro(st, serial)
    by = {s: {} for s in order}
    for fn, d in links.items():
        s = "/".join(d["path"].split("/")[:2])
        if s not in by:
            return "mirror-leak", f"{fn} comes from {s} which is not one of {order}"
        by[s][fn] = d
    have = {}       # what has to be there because of the stages before
    for s in order:
        if s not in ups:
            want = {fn: path for fn, path in states.links(s, p, serial).items() if fn not in have}
            if {fn: d["path"] for fn, d in by[s].items()} != want:
                return "mirror-private", f"links of {s}: {sorted(by[s])}, should be {sorted(want)}"
            for fn in want:
                have[fn] = s
            continue
        up = ups[s]
        allowed = {True} if st in ups else states.mirror_allowed(st, p, serial, s)
        if by[s] and True not in allowed:
            return "mirror-leak", f"links of {s} {sorted(by[s])} for a private project not in mirror_whitelist"
        some, always = offered(up, p, rec["t0"] - 2 * up.expiry - M.SLACK, rec["t1"])
        for fn, d in by[s].items():
            if have.get(fn, s) != s:
                return "mirror-order", f"{fn} comes from {s} and not from {have[fn]}"
            have.setdefault(fn, s)
        if s in bad or allowed != {True}:
            continue
        if st not in ups and always is not None and not always:
            # the project may be missing in the list of projects meanwhile
            continue
        for fn in sorted(always or ()):
            if fn not in have and fn not in by[s]:
                return "mirror-missing", f"{fn} of {s} is not there, order {order}"
            have.setdefault(fn, s)
        for fn, d in by[s].items():
            if fn not in some and at_end:
                return "mirror-not-recovered", f"{fn} of {s} was removed"
    return None
