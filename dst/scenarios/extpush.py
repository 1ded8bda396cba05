"""Releases are pushed to an external index which refuses, fails, is slow or
loses its connections: what arrives there and what the client is told."""
import hashlib
import json
import re
from urllib.parse import parse_qs

from .. import core, gen, model, net, ops, oracle

SHRINK = [("faults",), ("clients",), ("clients", "*"), ("setup",)]

ACCEPTED = (200, 201)
WEIGHTS = dict(upload=30, docs=8, tox=3, register=4, del_file=6, del_version=4, del_project=2, index_modify=3,
               push=4, version_get=3, simple=3, file_get=2)


def plan(seed, profile="mixed", **kw):
    rng = gen.rng_for("extpush-" + profile, seed)
    users = ("u0", "u1")
    stages = ("u0/dev", "u1/dev")
    g = gen.Gen(rng, users, stages, projects=rng.choice([1, 2]), versions=rng.choice([1, 1, 2]), weights=WEIGHTS)
    n = rng.choice([1, 2, 3, 4])
    total = kw.get("ops") or rng.choice([25, 40, 60])
    clients = []
    for i in range(n):
        o = []
        for _ in range(max(1, total // n)):
            if rng.random() < 0.3:
                up = g.g_upload()
                x = dict(op="extpush", stage=up["stage"], name=up["name"], version=up["version"])
                if rng.random() < 0.3:
                    x["register"] = True
                r = rng.random()
                if r < 0.15:
                    x["no_docs"] = True
                elif r < 0.25:
                    x["only_docs"] = True
            else:
                x = g.op()
            if rng.random() < 0.3:
                x["d"] = round(rng.random() * rng.choice([0.1, 2]), 3)
            o.append(x)
        clients.append(dict(name=f"c{i}", user=None, ops=o))
    faults = []
    if rng.random() < 0.15:
        faults.append(gen.crash(rng, "primary"))
    f = {}
    if rng.random() < 0.5:
        for k in ("refuse", "lose_response", "lose_request", "truncate"):
            if rng.random() < 0.5:
                f[k] = rng.choice([0.03, 0.1, 0.3])
    return dict(
        seed=seed, profile=profile, sched=gen.sched(rng),
        net=dict(latency=[0.0005, rng.choice([0.002, 0.02, 0.2])], faults=f, links=["primary>pypi"]),
        target=dict(bad=rng.choice([0, 0.1, 0.3, 0.6]), slow=rng.choice([0, 0, 0.2]), gone=rng.random() < 0.5),
        passwords={u: "pw" + u for u in (*users, "u9")}, cache=rng.choice([1, 30, 10000]),
        setup=gen.setup_ops(rng, users, stages), clients=clients, faults=faults)


class Target(net.Host):
    """an external package index"""
    threads = 1000

    def __init__(self, cfg):
        super().__init__("pypi")
        self.cfg = cfg
        self.received = {}      # user -> [dict(action, form, fn, content, status)]
        self.problems = []
        self.app = self.serve

    def serve(self, environ, start_response):
        sim = core.SIM
        rng = sim.fault_rng
        body = environ["wsgi.input"].read()
        user = environ.get("HTTP_AUTHORIZATION", "")
        try:
            form, files = parse_form(environ.get("CONTENT_TYPE", ""), body)
        except Exception as e:  # noqa: BLE001
            form, files = {}, {}
            self.problems.append(f"unparsable form: {e!r}")
        action = (form.get(":action") or [""])[0]
        if rng.random() < self.cfg["slow"]:
            sim.count("fault:target-slow")
            sim.sleep(rng.choice([0.5, 5.0]) * rng.random())
        if rng.random() < self.cfg["bad"]:
            status = rng.choice([400, 403, 409, 500, 503])
            sim.count(f"fault:target-{status}")
        elif action == "submit" and self.cfg["gone"]:
            status = 410
        else:
            status = rng.choice([200, 200, 201])
        fn, content = files.get("content", (None, None))
        self.received.setdefault(user, []).append(dict(action=action, form=form, fn=fn, content=content, status=status))
        text = b"" if status < 300 else b"no thanks"
        start_response(f"{status} X", [("Content-Length", str(len(text))), ("Content-Type", "text/plain")])
        return [text]


def parse_form(ctype, body):
    if ctype.startswith("application/x-www-form-urlencoded"):
        return parse_qs(body.decode(), keep_blank_values=True, strict_parsing=True), {}
    m = re.match(r"multipart/form-data; *boundary=(.*)$", ctype)
    form, files = {}, {}
    parts = body.split(b"--" + m.group(1).encode())
    if parts[0] or parts[-1].strip() != b"--":
        raise ValueError("incomplete")
    for part in parts[1:-1]:
        head, _, data = part.partition(b"\r\n\r\n")
        assert data.endswith(b"\r\n")
        d = dict(re.findall(r'(\w+)="([^"]*)"', head.decode()))
        if "filename" in d:
            files[d["name"]] = (d["filename"], data[:-2])
        else:
            form.setdefault(d["name"], []).append(data[:-2].decode())
    return form, files


def run(world):
    plan = world.plan
    sim = world.sim
    prim = world.add_node("primary", args=["--keyfs-cache-size", str(plan["cache"])])
    world.init_node(prim, "--no-root-pypi")
    prim.start()
    if not prim.wait_up():
        world.violation("restart-failed", f"primary does not start: {prim.fatal} {prim.log[-1:]}")
        return
    base = prim.last_serial()
    world.harness.passwords.update(plan["passwords"])
    for op in plan["setup"]:
        ops.execute(world, world.harness, op)
    target = Target(plan["target"])
    sim.net.add("pypi", target)
    world.schedule_faults(plan["faults"])
    raw0 = prim.raw_changelog()
    recs = []

    from ..world import Client

    def client(c):
        cl = Client(world, c["name"], None, "primary")
        cl.passwords.update(plan["passwords"])
        for op in c["ops"]:
            if op.get("d"):
                sim.sleep(op["d"])
            if op["op"] == "extpush":
                recs.append(push(world, cl, prim, op, len(recs)))
            else:
                ops.execute(world, cl, op)
    tasks = [(c["name"], sim.spawn(lambda c=c: client(c), f"client-{c['name']}", quiet=1)) for c in plan["clients"]]
    for name, t in tasks:
        if not sim.join(t, 100000):
            world.violation("client-stuck", f"client {name} did not finish")
            return
        if t.exc is not None:
            raise core.HarnessError(f"client {name}: {t.exc!r}") from t.exc
    if not world.stop_faults():
        return
    slow = bool(plan["net"]["faults"]) or any(plan["sched"].get(x) for x in ("stall_p", "slow", "slow_lock", "slow_io"))
    oracle.check_changelog(world, prim, raw0)
    lin = oracle.linearize(world, base, model.initial(), background=lambda serial, changes: "no request made this commit")
    oracle.check_responses(world, lin, allow_5xx=slow)
    oracle.check_kv(world, prim)
    oracle.check_disk_files(world, prim, orphans=not prim.crashes)
    for p in target.problems:
        world.violation("extpush-content", p)
    for rec in recs:
        judge(world, lin, target, rec, slow)
    known = {rec["auth"] for rec in recs}
    for user in sorted(target.received):
        if user not in known:
            world.violation("extpush-content", f"unexpected credentials {user!r}")


def push(world, cl, prim, op, n):
    sim = world.sim
    user = f"ext{n}-{cl.name}"
    d = dict(name=op["name"], version=op["version"], posturl="http://pypi/upload/", username=user, password="secret")
    if op.get("register"):
        d["register_project"] = True
    for k in ("no_docs", "only_docs"):
        if op.get(k):
            d[k] = True
    h = {"Accept": "application/json", "Content-Type": "application/json",
         "Authorization": net.basic_auth("u0", world.harness.passwords["u0"])}
    rec = dict(op=op, t0=sim.now, auth=net.basic_auth(user, "secret"), lo=prim.committed_serial)
    try:
        r = net.request(sim.net, cl.host, "POST", f"http://primary:3141/{op['stage']}", h,
                        json.dumps(d).encode(), timeout=3000)
    except net.NetError as e:
        rec.update(error=e.kind)
    else:
        s = r.headers.get("x-devpi-serial")
        rec.update(status=r.status, body=r.body, serial=int(s) if s else None)
    rec.update(t1=sim.now, hi=prim.committed_serial)
    sim.note("extpush", n, rec.get("status"), rec.get("error"))
    return rec


def show(rec):
    return f"{rec['op']} t={rec['t0']:.1f}-{rec['t1']:.1f} -> {rec.get('status', rec.get('error'))} " \
           f"serial {rec.get('serial')} {rec.get('body', b'')[:600]!r}"


def expected(state, op):
    """status if it fails early, (releasefiles, doczip, version) otherwise"""
    if state.config(op["stage"]) is None:
        return 404, None
    src = state.versions(op["stage"], model.normalize(op["name"])).get(op["version"])
    if src is None:
        return 400, None
    files = [x for x in src["links"] if x["rel"] == "releasefile" and not op.get("only_docs")]
    docs = [x for x in src["links"] if x["rel"] == "doczip" and not op.get("no_docs")]
    if not files and not docs:
        # test results alone are links, too
        if not op.get("only_docs") and any(x["rel"] == "toxresult" for x in src["links"]):
            return None, (files, docs, src)
        return 404, None
    return None, (files, docs, src)


def judge(world, lin, target, rec, slow):
    world.note_check("extpush")
    got = target.received.get(rec["auth"], [])
    lo, hi = rec["lo"], rec["hi"]
    if rec.get("serial") is not None:
        lo = hi = rec["serial"]
    problem = None
    for s in range(max(lin.base, lo), hi + 1):
        problem = mismatch(lin.at(s), rec, got, slow)
        if problem is None:
            return
    if problem is not None:
        world.violation(problem[0], f"{problem[1]}: serial {lo}..{hi} {show(rec)}")


def mismatch(state, rec, got, slow):
    op = rec["op"]
    early, want = expected(state, op)
    # what arrived
    if want is None:
        if got:
            return "extpush-content", f"{len(got)} requests, should be {early}"
    else:
        files, docs, src = want
        seen = set()
        for g in got:
            if g["action"] == "submit":
                if not op.get("register"):
                    return "extpush-content", "was registered without being asked for"
            elif g["action"] == "file_upload":
                links = [x for x in files if x["basename"] == g["fn"]]
                sha = hashlib.sha256(g["content"] or b"").hexdigest()
                if not links:
                    return "extpush-content", f"unknown file {g['fn']} was sent"
                if sha != links[0]["sha"]:
                    return "extpush-content", f"wrong content of {g['fn']} was sent"
                if g["fn"] in seen:
                    return "extpush-content", f"{g['fn']} was sent repeatedly"
                seen.add(g["fn"])
                if g["form"].get("sha256_digest") != [sha]:
                    return "extpush-content", f"wrong digest {g['form'].get('sha256_digest')}"
                t = "bdist_wheel" if g["fn"].endswith(".whl") else "sdist"
                if g["form"].get("filetype") != [t]:
                    return "extpush-content", f"{g['fn']} has file type {g['form'].get('filetype')}"
            elif g["action"] == "doc_upload":
                if not docs or hashlib.sha256(g["content"] or b"").hexdigest() != docs[0]["sha"]:
                    return "extpush-content", "wrong documentation was sent"
            else:
                return "extpush-content", f"action {g['action']!r}"
            for k, v in src["meta"].items():
                if isinstance(v, str) and v and g["form"].get(k) != [v] or (
                        isinstance(v, (list, tuple)) and list(v) != g["form"].get(k, [])):
                    return "extpush-content", f"{k} is {g['form'].get(k)} and not {v!r}"
    if "error" in rec:
        return None     # crashed
    status = rec["status"]
    if early is not None:
        if status != early and not (status >= 500 and slow):
            return "extpush-status", f"status should be {early}"
        return None
    files, docs, src = want
    if status >= 500 and status != 502 and slow:
        return None
    if status not in (200, 502):
        return "extpush-status", "neither success nor bad gateway"
    try:
        result = json.loads(rec["body"])["result"]
    except Exception:  # noqa: BLE001
        return "extpush-status", "no results"
    rest = list(result)
    success = True
    if op.get("register"):
        if not rest or "register" not in rest[0][1]:
            return "extpush-status", "registration isn't reported"
        r = rest.pop(0)
        mine = [g["status"] for g in got if g["action"] == "submit"]
        if r[0] in (*ACCEPTED, 410):
            if mine != [r[0]]:
                return "extpush-status", f"registration was {mine}"
        else:
            success = False
            if rest:
                return "extpush-status", "went on after the registration failed"
    if not (op.get("register") and not success):
        by = {}
        uploads = [r for r in rest if r[1] in ("upload", "exception on release upload:")]
        documents = [r for r in rest if r[1] in ("docfile", "exception on documentation upload:")]
        if len(uploads) != len(files) or len(documents) != len(docs[:1]) or len(rest) != len(uploads) + len(documents):
            return "extpush-status", f"{len(files)} files and {len(docs)} documentation should be reported"
        for g in got:
            if g["action"] == "file_upload":
                by[g["fn"]] = g["status"]
        names = [r[2].rsplit("/", 1)[-1] for r in uploads if r[1] == "upload"]
        if len(set(names)) != len(names):
            return "extpush-status", "a file is reported repeatedly"
        for r in uploads:
            if r[1] == "upload" and by.get(r[2].rsplit("/", 1)[-1]) != r[0]:
                return "extpush-status", f"{r[2]} was {by.get(r[2].rsplit('/', 1)[-1])} and not {r[0]}"
        for r in documents:
            mine = [g["status"] for g in got if g["action"] == "doc_upload"]
            if r[1] == "docfile" and mine != [r[0]]:
                return "extpush-status", f"documentation was {mine}"
        success = all(r[0] in ACCEPTED for r in rest)
    if (status == 200) != success:
        return "extpush-status", f"overall status is {status}"
    if status == 200:
        accepted = {g["fn"] for g in got if g["action"] == "file_upload" and g["status"] in ACCEPTED}
        if accepted != {x["basename"] for x in files}:
            return "extpush-status", f"only {sorted(accepted)} were accepted"
    return None
