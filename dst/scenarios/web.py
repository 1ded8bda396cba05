"""devpi-web: the search index and the unpacked documentation follow the
stored state."""
import gc
import os
import re

from ..boot import capture
from .. import gen, model, ops, oracle
from . import store

SHRINK = [("faults",), ("clients",), ("clients", "*"), ("setup",)]

WEIGHTS = dict(
    search=dict(upload=8, docs=10, register=10, del_file=4, del_version=7, del_project=6, push=3,
                index_delete=3, index_create=7, user_delete=1, user_create=2, index_modify=1,
                search=8, page=5, doc=3),
    docs=dict(upload=4, docs=20, register=2, del_file=6, del_version=5, del_project=3, push=4,
              index_delete=1.5, index_create=4, doc=45, page=3, search=1),
    docrace=dict(docs=12, del_file=3, del_version=2, doc=40),
    evil=dict(docs=12, del_version=2, doc=30, page=2, search=2),
)
WORDS = ["summary0", "summary1", "summary2", "summary3"]
EVIL = ["../../../../../.serverversion", "../../../../../.nodeinfo", "%2e%2e/%2e%2e/%2e%2e/%2e%2e/%2e%2e/.nodeinfo",
        "../+doc.hash", "../../1.0/+doc.hash", "../../../../../../secret", "..%2f..%2f..%2f..%2f..%2f.nodeinfo",
        "//../../../../../.nodeinfo", "/etc/hostname", "//etc/hostname"]


class Gen(gen.Gen):
    def g_docs(self):
        op = super().g_docs()
        if self.rng.random() < 0.5:
            op["as"] = op["stage"].split("/")[0]
        return op

    def g_doc(self):
        rng = self.rng
        name, version, fn = self.release()
        var = rng.choice([0, 1])
        op = dict(op="doc_get", stage=rng.choice(self.stages), name=name,
                  version=rng.choice([version] * 6 + ["latest", "latest", "stable"]),
                  page=rng.choice(["index.html"] * 3 + ["common.txt", f"page{var}_0.html", f"page{var}_2.html"]),
                  **{"as": None})
        if rng.random() < 0.1:
            op["page"] = rng.choice(EVIL)
        if rng.random() < 0.15 and op["version"] == version:
            op["etag"] = rng.choice([0, 1])
        elif rng.random() < 0.15 and op["page"] == "index.html":
            op["view"] = "+d"
        return op

    def g_search(self):
        rng = self.rng
        if rng.random() < 0.4:
            op = dict(op="search", stage=rng.choice(self.stages), fields=dict(name=rng.choice(["foo", "bar"])))
            if rng.random() < 0.3:
                op["fields"] = dict(summary=rng.choice(WORDS))
        else:
            op = dict(op="search", query=rng.choice([
                "type:project", "foo", "bar", "type:page", "type:title", "summary1", "type:summary", "word0q",
                "type:page AND word1q", "path:/" + rng.choice(self.stages) + "/foo", "foo OR word1q"]))
        return dict(op, **{"as": None})

    def g_page(self):
        rng = self.rng
        stage = rng.choice(self.stages)
        name, version, fn = self.release()
        name = model.normalize(name)
        path = rng.choice([
            "/", f"/{stage.split('/')[0]}", f"/{stage}", f"/{stage}/{name}", f"/{stage}/{name}/{version}",
            f"/{stage}/{name}/latest", f"/{stage}/{name}/stable", "/+status"])
        return dict(op="page_get", path=path, **{"as": None})


def plan(seed, profile="search", **kw):
    rng = gen.rng_for("web-" + profile, seed)
    users = ("u0", "u1")
    stages = ("u0/dev", "u0/prod", "u1/dev")[:rng.choice([1, 2, 3])]
    if "u1/dev" not in stages:
        users = ("u0",)
    race = profile == "docrace"
    if race:
        users, stages = ("u0",), ("u0/dev",)
    g = Gen(rng, users, stages, projects=1 if race else rng.choice([1, 2]),
            versions=rng.choice([1, 2] if race else [1, 2, 3]), weights=WEIGHTS[profile])
    g.force_p = 0.6
    n = rng.choice([4, 6] if race else [1, 2, 3, 4])
    total = kw.get("ops") or rng.choice([20, 40, 60])
    clients = [dict(name=f"c{i}", user=None, ops=[g.op() for _ in range(max(1, total // n))]) for i in range(n)]
    for c in clients:
        for o in c["ops"]:
            if o["op"] in ("register", "upload") and rng.random() < 0.4:
                o.setdefault("kw", {}).setdefault("summary", rng.choice(WORDS))
            if o.get("d") and rng.random() < 0.3:
                o["d"] = round(rng.random() * 8, 2)
    faults = []
    r = rng.random() * (2 if race else 1)
    if r < 0.5:
        for _ in range(rng.choice([1, 1, 2, 3])):
            f = gen.crash(rng, "primary")
            if rng.random() < 0.5:
                f["match"] = rng.choice([".indices", "+doc"])
                f["kind"] = rng.choice(["fs.openw", "fs.write", "fs.close", "fs.rename", "fs.after-rename", "fs.remove"])
                if f["match"] == "+doc":
                    f["kind"] = rng.choice(["fs.openw", "fs.write", "fs.close", "fs.remove", "fs.mkdir", "fs.rmdir"])
                if f["kind"].startswith("fs.after"):
                    del f["match"]
                f["nth"] = int(rng.expovariate(1.0) * 12)
            faults.append(f)
    elif r < 0.65:
        for _ in range(rng.choice([1, 2, 4])):
            f = store.disk_fault(rng, "primary")
            if rng.random() < 0.7:
                f["match"] = rng.choice([".indices", "+doc"])
                f["kind"] = rng.choice(["fs.openw", "fs.write", "fs.close", "fs.rename", "fs.openr", "fs.mkdir", "fs.remove"])
                f["nth"] = int(rng.expovariate(1.0) * 8)
            faults.append(f)
    elif r < 0.75:
        faults.append(dict(type="stop", node="primary", at=round(rng.random() * 5, 2), restart=0.5))
    if profile == "evil":
        faults = faults[:1]
        for c in clients:
            for o in c["ops"]:
                if o["op"] == "docs" and rng.random() < 0.5:
                    o["var"] = 2
    setup = gen.setup_ops(rng, users, stages)
    for o in setup:
        o.get("kw", {}).pop("volatile", None) if rng.random() < 0.7 else None
    return dict(
        seed=seed, profile=profile, sched=gen.sched(rng), net=dict(latency=[0.0005, rng.choice([0.002, 0.02, 0.2])]),
        passwords={u: "pw" + u for u in (*users, "u9")}, packed=rng.random() < 0.15,
        setup=setup, clients=clients, faults=faults)


def run(world):
    plan = world.plan
    sim = world.sim
    args = ["--keep-docs-packed"] if plan.get("packed") else []
    prim = world.add_node("primary", args=args, web=True)
    world.init_node(prim, "--no-root-pypi")
    prim.start()
    if not prim.wait_up():
        world.violation("restart-failed", f"primary does not start: {prim.fatal} {prim.log[-1:]}")
        return
    base = prim.last_serial()
    world.harness.passwords.update(plan.get("passwords", {}))
    for op in plan.get("setup", ()):
        ops.execute(world, world.harness, op)
    world.schedule_faults(plan.get("faults", ()))
    if not world.run_clients(plan["clients"]):
        return
    if not world.stop_faults():
        return
    if plan["profile"] == "evil":
        sim.sleep(60)
        check_escape(world, prim)
        return
    faulty = any(f["type"] in ("disk", "disk_rate", "disk_full") for f in plan.get("faults", ()))
    lin = oracle.linearize(world, base, model.initial(), background=store.background)
    oracle.check_responses(world, lin, allow_5xx=faulty)
    state = lin.at(lin.last)
    oracle.dump_check(world, prim, state, min_serial=lin.last)
    check_docs(world, prim, state)
    if faulty and not world.violations:
        # an index update which failed is repeated, the delay grows with
        # every failure, the lock of a failed one may wait for the collector
        for _ in range(20):
            gc.collect()
            sim.sleep(30)
    check_search(world, prim, state)
    if sim.rng.random() < 0.3:
        if not prim.stop():
            world.violation("shutdown-hang", "primary did not stop")
            return
        if not prim.restart():
            world.violation("restart-failed", f"{prim.fatal} {prim.log[-1:]}")
            return
        check_docs(world, prim, state)
        check_search(world, prim, state)


def check_escape(world, node):
    """the names in an uploaded archive never lead out of its own directory"""
    world.note_check("docs-escape")
    for root, dirs, files in os.walk(os.path.dirname(node.dir)):
        for f in files:
            if f.startswith("evil"):
                path = os.path.relpath(os.path.join(root, f), node.dir)
                if "+doc/" not in path and "+doc.tmp/" not in path:
                    world.violation("docs-escape", f"file of an uploaded archive unpacked as {path}")
                    return


def check_docs(world, node, state):
    """every page of the current documentation and nothing else"""
    cl = world.harness
    seen = {(o["stage"], model.normalize(o["name"]), o["version"])
            for o in (r["op"] for r in world.history) if o["op"] == "docs"}
    for stage, project, version in sorted(seen):
        for v in (version, "latest"):
            found = model.docs_of(state, stage, project, v)
            pages = {"index.html", "page0_1.html", "page1_1.html"}
            if found is not None:
                pages |= set(model.doc_pages(found[1], found[2]))
            for page in sorted(pages):
                rec = ops.execute(world, cl, dict(op="doc_get", stage=stage, name=project, version=v, page=page, **{"as": None}), node=node)
                rec["nocheck"] = True
                world.note_check("doc-page")
                if "status" not in rec:
                    world.violation("docs-wrong", f"no answer: {oracle.describe(rec)}")
                    continue
                e = oracle.matches(world, rec, model.op_doc_get(state, rec["op"], None))
                if e is not None:
                    world.violation("docs-wrong", f"{e}: {oracle.describe(rec)} {rec['body'][:120]!r} {node.app_errors[-1:]}")
                    return


def expected(state):
    """what the searches of probes() have to find"""
    out = {"type:project": set(), "type:page": set()}
    for w in WORDS:
        out[f"type:summary AND {w}"] = set()
    for var in (0, 1):
        out[f"type:page AND word{var}q"] = set()
    for stage in state.stages():
        for project, versions in state.projects.get(stage, {}).items():
            path = f"/{stage}/{project}"
            top = model.latest(versions)[0]
            meta = versions[top]["meta"]
            hit = (path, f"{meta['name']}-{top}")
            out["type:project"].add(hit)
            if meta.get("summary") in WORDS:
                out[f"type:summary AND {meta['summary']}"].add(hit)
            docs = model.docs_of(state, stage, project, "latest")
            if docs is not None:
                out["type:page"].add(hit)
                out[f"type:page AND word{docs[2]}q"].add(hit)
    return out


def search_all(world, node, query):
    cl = world.harness
    hits = set()
    last = None
    for page in range(1, 40):
        rec = ops.execute(world, cl, dict(op="search", query=query, page=page, **{"as": None}), node=node)
        rec["nocheck"] = True
        if rec.get("status") != 200 or "value" not in rec:
            return None, rec
        if rec["value"] == last and not re.search(rb'class="next">\s*<a', rec["body"]):
            break
        last = rec["value"]
        hits.update(map(tuple, last))
        if not re.search(rb'class="next">\s*<a', rec["body"]):
            break
    return hits, rec


def check_search(world, node, state):
    """the searches find exactly what there is, at the latest some time after
    the last change"""
    sim = world.sim
    if any(f["type"].startswith("disk") for f in world.plan.get("faults", ())) and any(
            "[NOTI] calling" in r[3] and "failed, serial=" in r[3] for r in capture.records):
        # a subscriber which failed (the index could not be opened) is logged
        # and not called again
        return
    want = expected(state)
    start = sim.now
    bad = None
    for delay in (0, 2, 10, 30, 60, 120, 600, 1800, 5400):
        sim.sleep(delay)
        bad = None
        for query in sorted(want):
            hits, rec = search_all(world, node, query)
            if hits is None:
                bad = ("search-error", f"{oracle.describe(rec)} {rec.get('unparsable')} {node.app_errors[-1:]}")
                break
            if hits != want[query]:
                bad = ("search-stale", f"{query!r} still finds {sorted(hits - want[query])} too much and "
                       f"not {sorted(want[query] - hits)} {sim.now - start:.0f} s after the last change")
                break
        if bad is None:
            break
    world.note_check("search")
    if bad is not None:
        world.violation(*bad)
        return
    cl = world.harness
    for stage in sorted(state.stages()):
        want = {}
        for s in reversed(state.stage_sro(stage)):
            for project, versions in state.projects.get(s, {}).items():
                if project == "foo":
                    top = model.latest(versions)[0]
                    vis = model.latest(versions)[0]
                    want[project] = (s, top, vis)
        rec = ops.execute(world, cl, dict(op="search", stage=stage, fields=dict(name="foo"), **{"as": None}), node=node)
        rec["nocheck"] = True
        got = {h[0]: h for h in rec.get("value", ())}
        world.note_check("xmlrpc-search")
        if rec.get("status") != 200 or "value" not in rec or "unparsable" in rec:
            world.violation("search-error", f"{oracle.describe(rec)} {rec.get('unparsable')}")
        elif set(got) != set(want):
            world.violation("search-stale", f"search for packages on {stage} finds {sorted(got)} instead of {sorted(want)}")
        else:
            for p, (s, top, vis) in want.items():
                if got[p][1] != vis or not got[p][2].startswith(f"[{s}]"):
                    world.violation("search-stale", f"search for packages on {stage} finds {got[p]} instead of {want[p]}")
