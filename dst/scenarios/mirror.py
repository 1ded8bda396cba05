"""A mirror index, a private index inheriting from it, and an upstream package
server which changes, fails, hangs, truncates and serves old pages."""
import hashlib
import json
from html import escape, unescape
from urllib.parse import urljoin, urlsplit

from .. import core, gen, model, net, ops, oracle

SHRINK = [("windows",), ("faults",), ("clients",), ("clients", "*"), ("events",)]

MIRROR = "root/pypi"
SLACK = 30.0        # between looking upstream and remembering that one did
GRACE = 140.0       # a hanging request of a fault window may last that long
BOUND = 300.0       # no request takes longer
V1JSON = "application/vnd.pypi.simple.v1+json"


def content(fn, var):
    n = 300 + 9000 * (int(hashlib.md5(f"up{fn}{var}".encode()).hexdigest(), 16) % 7)
    return (f"up|{fn}|{var}|".encode() * (n // 8 + 1))[:n]


class Upstream(net.Host):
    """a package index whose state is a function of the simulated time"""
    threads = 100000

    def __init__(self, world, name, cfg, events, t0):
        super().__init__(name)
        self.world = world
        self.cfg = cfg
        self.t0 = t0
        self.versions = [(0.0, {})]
        cur = {}
        serials = {}
        for ev in events:
            cur = {p: list(fs) for p, fs in cur.items()}
            p = ev["project"]
            if ev["do"] == "add":
                f = dict(fn=ev["fn"], var=ev["var"], py=ev.get("py"), yanked=None)
                cur[p] = [x for x in cur.get(p, ()) if x["fn"] != ev["fn"]] + [f]
            elif ev["do"] == "yank" and cur.get(p):
                i = ev["n"] % len(cur[p])
                f = dict(cur[p][i])
                f["yanked"] = None if f["yanked"] else ev.get("why", "")
                cur[p][i] = f
            elif ev["do"] == "delfile" and len(cur.get(p, ())) > 1:
                del cur[p][ev["n"] % len(cur[p])]
            elif ev["do"] == "delproject":
                cur.pop(p, None)
            serials = dict(serials)
            serials[p] = len(self.versions)
            self.versions.append((ev["at"], cur))
            cur = dict(cur)
            self.versions[-1][1]["+serials"] = serials
        # pages with the names of all projects have several chunks
        self.filler = [f"p{i}{'x' * 90}" for i in range(self.cfg.get("filler", 0))]
        self.log = []       # (t, path, version, mode, status)
        self.corrupted = {}  # path -> [times]
        self.windows = []   # (from, to, mode)
        self.net_modes = []
        self.down = False
        self.down_at = 1e9
        self.app = self.serve

    # -- state over time ---------------------------------------------------

    def version_no(self, t):
        t -= self.t0
        n = 0
        for i, (at, state) in enumerate(self.versions):
            if at <= t:
                n = i
        return n

    def state(self, n):
        return self.versions[n][1]

    def links(self, n, project):
        """what a mirror should say: {fn: (sha256 or "", requires, yanked)} or None"""
        fs = self.state(n).get(project)
        if fs is None:
            return None
        out = {}
        for f in fs:
            digest = hashlib.sha256(content(f["fn"], f["var"])).hexdigest() if self.cfg["hashes"] else ""
            out[f["fn"]] = (digest, f["py"], f["yanked"])
        return out

    def names(self, n):
        return sorted(p for p in self.state(n) if not p.startswith("+")) + self.filler

    def path_of(self, f):
        digest = hashlib.sha256(content(f["fn"], f["var"])).hexdigest()
        if self.cfg["hashes"]:
            return f"/pkgs/{digest[:8]}/{f['fn']}"
        return f"/pkgs/{f['fn']}"

    def mode(self, t):
        if self.down:
            return "503"
        for a, b, m in self.windows:
            if a <= t < b:
                return m
        return "ok"

    # -- HTTP ----------------------------------------------------------------

    def serve(self, environ, start_response):
        sim = core.SIM
        rng = sim.fault_rng
        path = environ["PATH_INFO"]
        mode = self.mode(sim.now)
        sim.count(f"upstream:{mode}")
        if mode != "ok":
            sim.count(f"fault:upstream-{mode}")
        if mode == "flaky":
            mode = rng.choice(["ok", "500", "slow", "hang", "404", "truncate", "old"])
        version = self.version_no(sim.now)
        if mode == "slow":
            sim.sleep(rng.choice([1.0, 6.0, 20.0, 60.0]) * rng.random())
            if rng.random() < 0.5:
                # the answer is computed at the end
                version = self.version_no(sim.now)
        elif mode == "hang":
            sim.sleep(rng.choice([20.0, 120.0]))
            start_response("504 Gateway Timeout", [("Content-Length", "0")])
            return [b""]
        elif mode == "old" and self.cfg["serials"]:
            version = max(self.version_no(self.t0), version - rng.choice([1, 2, 5]))
        if mode in ("500", "503", "404", "403"):
            self.log.append((sim.now, path, version, mode, int(mode)))
            body = b"upstream says no"
            start_response(f"{mode} No", [("Content-Length", str(len(body))), ("Content-Type", "text/plain")])
            return [body]
        status, headers, body = self.answer(environ, path, version)
        self.log.append((sim.now, path, version, mode, status))
        headers = [*headers, ("Content-Length", str(len(body)))]
        start_response(f"{status} X", headers)
        if mode == "truncate":
            cut = rng.randrange(max(1, len(body)))
            return chunks(body[:cut])
        if mode == "corrupt" and path.startswith("/pkgs") and status == 200 and self.cfg["hashes"]:
            i = rng.randrange(len(body))
            self.corrupted.setdefault(path.rsplit("/", 1)[-1], []).append(sim.now)
            body = body[:i] + bytes([body[i] ^ 0x5a]) + body[i + 1:]
        if self.filler:
            return [body]
        return chunks(body, rng.choice([0, 0, 0.3]) if path.startswith("/pkgs") else 0)

    def answer(self, environ, path, version):
        st = self.state(version)
        parts = path.strip("/").split("/")
        if parts[0] == "pkgs":
            for n in range(version, -1, -1):
                for p, fs in sorted(self.state(n).items()):
                    if p.startswith("+"):
                        continue
                    for f in fs:
                        if self.path_of(f) == path:
                            h = [("Content-Type", "application/octet-stream")]
                            if self.cfg["lastmod"]:
                                h.append(("Last-Modified", "Thu, 01 Jan 2026 00:00:00 GMT"))
                            return 200, h, content(f["fn"], f["var"])
            return 404, [], b"no such file"
        is_json = self.cfg["json"] and "json" in environ.get("HTTP_ACCEPT", "")
        headers = [("Content-Type", V1JSON if is_json else "text/html")]
        if len(parts) == 1:
            names = self.names(version)
            if is_json:
                body = json.dumps(dict(meta={"api-version": "1.0"}, projects=[dict(name=n) for n in names])).encode()
            else:
                body = ("<html><body>" + "".join(f'<a href="{n}/">{n}</a>\n' for n in names) + "</body></html>").encode()
        else:
            p = parts[1]
            fs = st.get(p)
            if fs is None:
                return 404, [("Content-Type", "text/plain")], b"unknown project"
            if is_json:
                files = []
                for f in fs:
                    d = dict(filename=f["fn"], url="../.." + self.path_of(f), hashes={})
                    if self.cfg["hashes"]:
                        d["hashes"] = {"sha256": hashlib.sha256(content(f["fn"], f["var"])).hexdigest()}
                    if f["py"]:
                        d["requires-python"] = f["py"]
                    if f["yanked"] is not None:
                        d["yanked"] = f["yanked"] or True
                    files.append(d)
                body = json.dumps(dict(meta={"api-version": "1.0"}, name=p, files=files)).encode()
            else:
                out = []
                for f in fs:
                    href = "../.." + self.path_of(f)
                    if self.cfg["hashes"]:
                        href += "#sha256=" + hashlib.sha256(content(f["fn"], f["var"])).hexdigest()
                    a = f'href="{href}"'
                    if f["py"]:
                        a += f' data-requires-python="{escape(f["py"])}"'
                    if f["yanked"] is not None:
                        a += f' data-yanked="{escape(f["yanked"])}"'
                    out.append(f"<a {a}>{f['fn']}</a><br/>")
                body = ("<html><body>" + "\n".join(out) + "</body></html>").encode()
            if self.cfg["serials"]:
                headers.append(("X-PYPI-LAST-SERIAL", str(st["+serials"].get(p, 0) + 1)))
        if self.cfg["etags"]:
            etag = '"%s"' % hashlib.md5(body).hexdigest()
            headers.append(("ETag", etag))
            if environ.get("HTTP_IF_NONE_MATCH") == etag:
                return 304, [("ETag", etag)], b""
        return 200, headers, body


def chunks(body, delay=0):
    for i in range(0, len(body), 8192):
        if delay:
            core.SIM.sleep(delay)
        yield body[i:i + 8192]


# ---------------------------------------------------------------------------
# plans

UPROJECTS = ["foo", "bar-baz", "newp"]
MODES = ["500", "503", "404", "hang", "slow", "slow", "truncate", "flaky", "refuse", "old", "corrupt", "403"]


def upfile(rng, p, versions=("1.0", "1.1", "2.0", "3.0")):
    v = rng.choice(versions)
    b = p.replace("-", "_")
    return rng.choice([f"{b}-{v}.tar.gz", f"{b}-{v}-py3-none-any.whl"])


def sched(rng, profile):
    r = gen.sched(rng)
    if profile == "biglist":
        # making and sending long pages takes time
        r["slow"] = dict(r.get("slow", {}), **{"net.chunk": [0.8, rng.choice([0.1, 1.0])]})
    return r


def plan(seed, profile="mixed", **kw):
    rng = gen.rng_for("mirror-" + profile, seed)
    cfg = dict(hashes=rng.random() < 0.8, json=rng.random() < 0.5, serials=rng.random() < 0.6,
               etags=rng.random() < 0.6, lastmod=rng.random() < 0.7)
    expiry = rng.choice([0, 10, 60, 600])
    noprojlist = rng.random() < 0.15
    span = rng.choice([60, 300, 1200])
    if profile == "replica":
        span = rng.choice([20, 60, 200])
        expiry = rng.choice([0, 10, 60])
    if profile in ("files", "whitelist"):
        span = rng.choice([20, 60, 200])
        expiry = rng.choice([0, 10, 600])
    if profile == "disk":
        cfg["etags"] = rng.random() < 0.85
        span = rng.choice([60, 300])
        expiry = rng.choice([0, 0, 10, 60])
    if profile in ("race",):
        span = rng.choice([20, 60])
        expiry = rng.choice([0, 0, 10])
    projects = UPROJECTS[:rng.choice([1, 2, 3])]
    if profile == "biglist":
        # projects appear upstream, and are asked for while the list is sent
        span = rng.choice([20, 60])
        expiry = rng.choice([2, 5, 10])
        cfg["filler"] = rng.choice([800, 1200])
        noprojlist = False
        projects = ["foo"] + [f"{x}new{i}" for i in range(rng.choice([2, 5])) for x in "az"]
    events = []
    for p in projects:
        if "new" in p:
            continue
        for _ in range(rng.choice([1, 2, 4])):
            events.append(dict(at=0.0, project=p, do="add", fn=upfile(rng, p), var=0,
                               py=rng.choice([None, None, ">=3.6"])))
    for _ in range(rng.choice([0, 2, 5, 10] if profile != "disk" else [2, 4, 8])):
        p = rng.choice(projects)
        k = rng.random()
        ev = dict(at=round(rng.random() * span, 2), project=p)
        if k < 0.65 or "new" in p:
            # the content of a file never changes without its hash
            ev.update(do="add", fn=upfile(rng, p), var=rng.choice([0, 0, 1]) if cfg["hashes"] else 0,
                      py=rng.choice([None, None, ">=3.6", "<4"]))
        elif k < 0.8:
            ev.update(do="yank", n=rng.randrange(8), why=rng.choice(["", "bad"]))
        elif k < 0.93:
            ev.update(do="delfile", n=rng.randrange(8))
        else:
            ev.update(do="delproject")
        events.append(ev)
    events.sort(key=lambda e: e["at"])
    windows = []
    if profile == "biglist":
        events += [dict(at=round(span / 4 + rng.random() * span / 2, 2), project=p, do="add", fn=upfile(rng, p), var=0, py=None)
                   for p in projects[1:]]
        events.sort(key=lambda e: e["at"])
    elif profile not in ("calm", "disk") and (profile != "whitelist" or rng.random() < 0.3):
        t = 0
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            t += rng.random() * span / 3
            d = rng.choice([2, 20, 100]) * rng.random()
            windows.append([round(t, 2), round(t + d, 2), rng.choice(
                ["truncate", "corrupt", "flaky", "slow", "500"] if profile == "files" else MODES)])
            t += d
    stages = ["u0/dev", "u0/prod"]
    replicas = ["r1"] if profile == "replica" or (profile == "biglist" and rng.random() < 0.8) else []
    clients = []
    n = rng.choice([1, 2, 3, 4])
    if profile in ("race", "files", "whitelist"):
        n = rng.choice([2, 3, 4, 6])
    total = kw.get("ops") or rng.choice([15, 30, 50])
    if profile == "biglist":
        n = rng.choice([3, 5])
        total = 25 * n
    for i in range(n):
        cops = []
        for _ in range(max(1, total // n)):
            st = rng.choice([MIRROR, MIRROR, "u0/dev", "u0/prod"])
            p = rng.choice(projects)
            r = rng.random()
            if profile == "whitelist":
                st = rng.choice(["u0/dev", "u0/dev", "u0/prod", MIRROR])
                r = rng.choice([r, 0.1, 0.7, 0.82, 0.85, 0.9, 0.92, 0.95])
            elif profile == "files":
                r = rng.choice([r, 0.5, 0.5, 0.5, 0.5, 0.8])
            if r < 0.45:
                o = dict(op="simple", stage=st, name=p, json=rng.random() < 0.5, browser=rng.random() < 0.1)
            elif r < 0.65:
                o = dict(op="file", stage=st, name=p, n=rng.randrange(8))
                if rng.random() < 0.1:
                    o["head"] = True
            elif r < 0.72:
                o = dict(op="list", stage=st, json=rng.random() < 0.5)
            elif r < 0.76:
                o = dict(op="versions", stage=st, name=p)
            elif r < 0.79 and profile != "replica":
                o = dict(op="refresh", stage=st, name=p)
            elif r < 0.81 and profile != "replica":
                o = dict(op="delcache", stage=MIRROR, name=p, version=rng.choice([None, None, "1.0"]))
            elif r < 0.88:
                fn = upfile(rng, p)
                o = dict(op="private", stage=rng.choice(stages), name=p, fn=fn, var=rng.choice([0, 1]),
                         version=fn.replace("-py3-none-any.whl", "").replace(".tar.gz", "").rsplit("-", 1)[1])
            elif r < 0.91:
                o = dict(op="delprivate", stage=rng.choice(stages), name=p)
            elif r < 0.97:
                kw2 = rng.choice([
                    dict(mirror_whitelist=[]), dict(mirror_whitelist=[p]), dict(mirror_whitelist=[p]),
                    dict(mirror_whitelist=["*"]),
                    dict(mirror_whitelist_inheritance=rng.choice(["union", "intersection"]))])
                o = dict(op="config", stage=rng.choice(stages), kw=kw2)
            else:
                fn = "1.0"
                o = dict(op="push", stage=MIRROR, name=p, version=rng.choice(["1.0", "1.1", "2.0"]),
                         target=rng.choice(stages))
            r = rng.random()
            if r < 0.3:
                o["d"] = round(rng.random() * rng.choice([0.2, 5, span / 5, span / 3]), 3)
            if profile == "files" and o["op"] == "file":
                # several clients want the same file
                o["name"] = projects[0] if rng.random() < 0.8 else p
                o["n"] = rng.choice([0, 0, 0, 1])
                if rng.random() < 0.3:
                    sp = rng.choice([0, 0.05, 1.0])
                    cops.append(dict(op="delcache", stage=MIRROR, name=o["name"], version=None))
                    o.update(op="gang", delays=[round(rng.random() * sp, 3) for _ in range(rng.choice([2, 2, 3]))])
            if profile in ("files", "whitelist"):
                o["d"] = round(rng.random() * rng.choice([0.01, 0.5, 6, span / 8]), 3)
            if profile == "disk" and rng.random() < 0.7:
                o = dict(op="simple", stage=st, name=p, json=True)
                if rng.random() < 0.5:
                    o["d"] = round(rng.random() * span / 5, 3)
            if profile == "biglist":
                st = rng.choice([MIRROR, MIRROR, "u0/dev"])
                o = dict(op="list", stage=st, json=rng.random() < 0.5) if rng.random() < 0.4 else dict(
                    op="simple", stage=st, name=p, json=True)
                o["d"] = round(rng.random() * span / 12, 3)
                if not cops:
                    o = dict(op="list", stage=MIRROR, json=True)
            if profile == "race":
                if o["op"] in ("private", "config", "list") and rng.random() < 0.6:
                    o = dict(op="simple", stage=st, name=p, json=True)
                o["d"] = round(rng.random() * rng.choice([0.01, 0.5, 6]), 3)
            cops.append(o)
        clients.append(dict(name=f"c{i}", ops=cops,
                            node=rng.choice(["r1", "r1", "primary"]) if replicas else "primary"))
    faults = []
    r = rng.random()
    if profile in ("mixed", "crash", "replica", "files"):
        if profile == "crash" or r < 0.25:
            for _ in range(rng.choice([1, 1, 2, 3])):
                faults.append(gen.crash(rng, rng.choice(["primary", *replicas])))
        elif r < 0.4:
            for _ in range(rng.choice([1, 2])):
                faults.append(dict(
                    type="disk", node=rng.choice(["primary", *replicas]),
                    kind=rng.choice(["fs.openw", "fs.write", "fs.close", "fs.rename", "db.write", "db.commit"]),
                    nth=int(rng.expovariate(1.0) * 8), count=rng.choice([1, 2]), err=rng.choice(["EIO", "ENOSPC"])))
        elif r < 0.5 and profile != "replica":
            faults.append(dict(type="skew", node="primary", at=round(rng.random() * span / 2, 2),
                               delta=rng.choice([5000, 300, 60, -60, -300])))
    if profile == "disk":
        for _ in range(rng.choice([1, 2, 4])):
            faults.append(dict(
                type="disk", node="primary", kind=rng.choice(
                    ["db.write", "db.write", "db.commit", "db.commit", "fs.write", "fs.rename", "fs.openw"]),
                nth=int(rng.random() * rng.choice([8, 20, 60])), count=rng.choice([1, 1, 2, 5]), err=rng.choice(["EIO", "ENOSPC"])))
    bases = rng.choice([
        [["u0/dev", ["u0/prod", MIRROR]], ["u0/prod", []]],
        [["u0/dev", ["u0/prod"]], ["u0/prod", [MIRROR]]],
        [["u0/dev", [MIRROR, "u0/prod"]], ["u0/prod", []]],
        [["u0/dev", [MIRROR]], ["u0/prod", [MIRROR]]]])
    return dict(
        seed=seed, profile=profile, sched=sched(rng, profile),
        net=dict(latency=[0.0005, rng.choice([0.002, 0.02, 0.2])], slow_max=20.0, faults={}),
        upstream=cfg, events=events, windows=windows, expiry=expiry, noprojlist=noprojlist,
        projects=projects, bases=bases, replicas=replicas, cache=rng.choice([1, 30, 10000]),
        timeout=rng.choice([5, 5, 2]), clients=clients, faults=faults)


# ---------------------------------------------------------------------------


class Harness:
    """executes the clients' operations and remembers what they saw"""

    def __init__(self, world, up):
        self.world = world
        self.sim = world.sim
        self.up = up
        self.recs = []
        self.pages = {}     # (client, stage, project) -> links

    def http(self, cl, node, method, path, headers=None, body=b"", auth=None, timeout=400.0):
        h = dict(headers or {})
        if auth:
            h["Authorization"] = net.basic_auth(auth, self.world.harness.passwords[auth])
        rec = dict(t0=self.sim.now, node=node.name, method=method, path=path,
                   lo=self.world.primary.committed_serial)
        try:
            r = net.request(self.sim.net, cl.host, method, f"http://{node.netloc}{path}", h, body, timeout=timeout)
        except net.NetError as e:
            rec.update(error=e.kind, t1=self.sim.now)
            return rec
        s = r.headers.get("x-devpi-serial")
        if r.status == 500 and node.app_errors:
            rec["exc"] = [e for e in node.app_errors if e[1] == path.split("?")[0]][-1:]
        rec.update(t1=self.sim.now, status=r.status, body=r.body, headers=r.headers,
                   serial=int(s) if s else None, hi=self.world.primary.committed_serial)
        return rec

    def run(self, cl, op, node=None):
        sim = self.sim
        node = node or self.world.nodes[op.get("node", cl.node)]
        k = op["op"]
        st = op.get("stage")
        p = op.get("name")
        J = {"Accept": "application/json"}
        if k == "simple":
            h = {"Accept": "text/html", "User-Agent": "Mozilla"} if op.get("browser") else (
                ops.PIPJSON if op.get("json") else ops.PIP)
            rec = self.http(cl, node, "GET", f"/{st}/+simple/{p}/", h)
            if rec.get("status") == 200:
                try:
                    rec["links"] = parse_page(rec["body"], rec["path"], op.get("json") and not op.get("browser"))
                    self.pages[cl.name, st, p] = rec["links"]
                except Exception as e:  # noqa: BLE001
                    rec["unparsable"] = repr(e)
        elif k == "file":
            links = self.pages.get((cl.name, st, p))
            if not links:
                self.run(cl, dict(op, op="simple", json=True), node)
                links = self.pages.get((cl.name, st, p))
            if not links:
                return
            fn = sorted(links)[op["n"] % len(links)]
            rec = self.http(cl, node, "HEAD" if op.get("head") else "GET", "/" + links[fn]["path"])
            rec["fn"] = fn
            rec["digest"] = links[fn]["digest"]
        elif k == "gang":
            # several clients want the same file at the same time
            self.run(cl, dict(op, op="simple", json=True), node)
            tasks = []
            for i, d in enumerate(op["delays"]):
                one = dict(op, op="file")
                tasks.append(sim.spawn(lambda one=one, d=d: (sim.sleep(d), self.run(cl, one, node)),
                                       f"gang-{cl.name}-{i}", quiet=1))
            for t in tasks:
                if not sim.join(t, 60000):
                    self.world.violation("client-stuck", f"client {cl.name} did not finish")
                    return
                if t.exc is not None:
                    raise core.HarnessError(f"gang {t.exc!r}") from t.exc
            return
        elif k == "list":
            rec = self.http(cl, node, "GET", f"/{st}/+simple/", ops.PIPJSON if op.get("json") else ops.PIP)
            if rec.get("status") == 200:
                try:
                    rec["names"] = ops.parse_simple_all(rec["body"], op.get("json"))
                except Exception as e:  # noqa: BLE001
                    rec["unparsable"] = repr(e)
        elif k == "versions":
            rec = self.http(cl, node, "GET", f"/{st}/{p}", J)
            if rec.get("status") == 200:
                rec["versions"] = sorted(json.loads(rec["body"])["result"])
        elif k == "refresh":
            rec = self.http(cl, node, "POST", f"/{st}/+simple/{p}/refresh")
        elif k == "delcache":
            path = f"/{st}/{p}" + (f"/{op['version']}" if op.get("version") else "")
            rec = self.http(cl, node, "DELETE", path, J, auth="root")
        elif k == "private":
            method, path, h, body = ops.build(dict(op, op="upload"))
            rec = self.http(cl, node, method, path, h, body, auth="u0")
        elif k == "delprivate":
            rec = self.http(cl, node, "DELETE", f"/{st}/{p}?force", J, auth="u0")
        elif k == "config":
            rec = self.http(cl, node, "PATCH", f"/{st}", dict(J, **{"Content-Type": "application/json"}),
                            json.dumps(op["kw"]).encode(), auth="root")
        elif k == "push":
            d = dict(name=p, version=op["version"], targetindex=op["target"])
            rec = self.http(cl, node, "POST", f"/{st}", dict(J, **{"Content-Type": "application/json"}),
                            json.dumps(d).encode(), auth="u0")
        else:
            raise core.HarnessError(k)
        rec["op"] = op
        rec["id"] = len(self.recs)
        self.recs.append(rec)
        sim.note("op", rec["id"], k, rec.get("status"), rec.get("error"),
                 hashlib.sha256(rec.get("body") or b"").hexdigest()[:10] if k in ("simple", "file") else "")
        return rec


def parse_page(body, pagepath, is_json):
    """fn -> dict(path, digest, py, yanked)"""
    out = {}
    if is_json:
        for f in json.loads(body)["files"]:
            path = urlsplit(urljoin(pagepath, f["url"])).path.lstrip("/")
            if f["filename"] in out:
                raise ValueError("duplicate link " + f["filename"])
            y = f.get("yanked")
            out[f["filename"]] = dict(
                path=path, digest=f["hashes"].get("sha256", ""), py=f.get("requires-python"),
                yanked=None if y in (None, False) else "" if y is True else y)
    else:
        import re
        if b"</html>" not in body:
            raise ValueError("incomplete page")
        for m in re.finditer(rb'<a ([^>]*)>([^<]*)</a>', body):
            attrs = {k.decode(): unescape(v.decode()) for k, v in re.findall(rb'([\w-]+)="([^"]*)"', m.group(1))}
            u = urlsplit(urljoin(pagepath, attrs["href"]))
            fn = unescape(m.group(2).decode())
            if fn in out:
                raise ValueError("duplicate link " + fn)
            frag = u.fragment
            out[fn] = dict(path=u.path.lstrip("/"), digest=frag[7:] if frag.startswith("sha256=") else frag,
                           py=attrs.get("data-requires-python"), yanked=attrs.get("data-yanked"))
    return out


FLAKY = dict(refuse=0.2, lose_request=0.1, lose_response=0.1, truncate=0.2, slow=0.3, connect_timeout=0.05)


def run(world):
    plan = world.plan
    sim = world.sim
    cache = ["--keyfs-cache-size", str(plan.get("cache", 10000)), "--request-timeout", str(plan.get("timeout", 5))]
    prim = world.add_node("primary", args=[*cache, *(["--role", "primary"] if plan["replicas"] else [])])
    world.init_node(prim, "--no-root-pypi", *(["--role", "primary"] if plan["replicas"] else []))
    reps = []
    for name in plan["replicas"]:
        r = world.add_node(name, role="replica", primary_url="http://primary:3141",
                           args=["--proxy-timeout", "60", *cache])
        world.init_node(r, "--role", "replica", "--primary-url", "http://primary:3141")
        reps.append(r)
    prim.start()
    if not prim.wait_up():
        world.violation("restart-failed", f"primary does not start: {prim.fatal} {prim.log[-1:]}")
        return
    root = world.harness
    root.passwords["u0"] = "pwu0"
    for op in [
            dict(op="user_create", user="u0", password="pwu0"),
            dict(op="index_create", stage=MIRROR, kw=dict(
                type="mirror", mirror_url="http://up1/simple/", mirror_cache_expiry=plan["expiry"],
                mirror_no_project_list=plan["noprojlist"])),
            *(dict(op="index_create", stage=s, kw=dict(bases=b, acl_upload=["u0"]))
              for s, b in reversed(plan["bases"]))]:
        rec = ops.execute(world, root, dict(op, **{"as": "root"}))
        if rec.get("status") not in (200, 201):
            raise core.HarnessError(f"setup failed {op} {rec.get('status')} {rec.get('body')}")
    for r in reps:
        r.start()
        if not r.wait_up(120):
            world.violation("restart-failed", f"{r.name} does not start: {r.fatal} {r.log[-1:]}")
            return
    t0 = sim.now
    up = Upstream(world, "up1", plan["upstream"], plan["events"], t0)
    up.windows = [(t0 + a, t0 + b, m) for a, b, m in plan["windows"]]
    sim.net.add("up1", up)
    sim.net.links = [f"{n.name}>up1" for n in (prim, *reps)]
    ha = Harness(world, up)
    world.schedule_faults(plan["faults"])
    watch = [(a, b) for a, b, m in up.windows if m in ("refuse", "flaky", "truncate")]

    def timeline():
        for a, b, m in sorted(up.windows):
            if m not in ("refuse", "flaky"):
                continue
            if a > sim.now:
                sim.sleep(a - sim.now)
            sim.net.rates = dict(FLAKY) if m == "flaky" else dict(refuse=1.0)
            if b > sim.now:
                sim.sleep(b - sim.now)
            sim.net.rates = {}
    tl = sim.spawn(timeline, "upstream-timeline", quiet=1)
    tasks = []

    from ..world import Client

    def client(c):
        cl = Client(world, c["name"], None, c["node"])
        for op in c["ops"]:
            if op.get("d"):
                sim.sleep(op["d"])
            ha.run(cl, op)
    for c in plan["clients"]:
        tasks.append((c["name"], sim.spawn(lambda c=c: client(c), f"client-{c['name']}", quiet=1)))
    for name, t in tasks:
        if not sim.join(t, 60000):
            world.violation("client-stuck", f"client {name} did not finish")
            return
        if t.exc is not None:
            raise core.HarnessError(f"client {name}: {t.exc!r}") from t.exc
    sim.join(tl, 10000)
    end = max([t0 + e["at"] for e in plan["events"]] + [b for a, b, m in up.windows] + [sim.now])
    if end > sim.now:
        sim.sleep(end - sim.now + 1)
    faults_end = sim.now
    sim.net.rates = {}
    skewed = any(f["type"] == "skew" for f in plan["faults"])
    if not world.stop_faults():
        return
    up.windows = [w for w in up.windows if w[0] < faults_end]
    final(world, ha, up, prim, reps, skewed)
    judge(world, ha, up, faults_end, skewed)
    oracle.check_changelog(world, prim)
    oracle.check_kv(world, prim)
    oracle.check_disk_files(world, prim, missing_ok=deleted_ok(prim))
    for r in reps:
        from .repl import check_prefix
        check_prefix(world, prim, r)
        oracle.check_disk_files(world, r, missing_ok=deleted_ok(r))


def deleted_ok(node):
    """on a mirror the file can be removed and gets fetched again"""
    return {p for p, v in oracle.file_entries(node.state_at()).items() if p.startswith(MIRROR + "/")}


def tail(world, prim, reps):
    for r in reps:
        if not world.sim.wait_until(lambda r=r: r.last_serial() >= prim.last_serial(), 900):
            world.violation("no-convergence", f"{r.name} is at {r.last_serial()}, primary at {prim.last_serial()}")


def final(world, ha, up, prim, reps, skewed):
    """upstream is healthy and does not change any more: everything has to be
    up to date; then upstream goes away and everything is still there."""
    sim = world.sim
    plan = world.plan
    cl = world.harness
    n = len(up.versions) - 1
    # hanging requests end, every cache expires
    sim.sleep(GRACE + (2 * plan["expiry"] + SLACK) * (2 if reps else 1) + (max(abs(f.get("delta", 0)) for f in plan["faults"]) * 1.2 if skewed else 0))
    tail(world, prim, reps)
    nodes = [prim, *reps]
    seen = {}
    for node in reversed(nodes):
        for p in plan["projects"]:
            want = up.links(n, p)
            for i in range(6):
                rec = ha.run(cl, dict(op="simple", stage=MIRROR, name=p, json=sim.rng.random() < 0.5, node=node.name))
                world.note_check("fresh-at-end")
                got = {f: (d["digest"], d["py"], d["yanked"]) for f, d in rec.get("links", {}).items()}
                if got == want or want is None or rec["t1"] - rec["t0"] < 0.9 * plan["timeout"]:
                    break
                # slower than the configured timeout
                sim.sleep(plan["expiry"] + SLACK)
            if want is None:
                continue    # removed: may still be there
            if got != want:
                world.violation(
                    "mirror-not-recovered", f"{node.name}: {p}: {diff(got, want)} long after the last fault: {show(rec)}")
            seen[node.name, p] = rec.get("links", {})
    for node in reversed(nodes):
        for p in plan["projects"]:
            for fn, d in sorted(seen.get((node.name, p), {}).items()):
                for i in range(2):
                    rec = ha.run(cl, dict(op="file", stage=MIRROR, name=p, n=sorted(seen[node.name, p]).index(fn),
                                          node=node.name))
                    world.note_check("file-at-end")
                    if rec is None or rec.get("status") != 200:
                        world.violation("mirror-file-unservable", f"{node.name}: {fn}: {rec and show(rec)}")
                        break
    tail(world, prim, reps)
    sim.sleep(30)
    # upstream is gone
    up.down = True
    up.down_at = sim.now
    if sim.rng.random() < 0.5:
        up.alive = False
    sim.sleep(plan["expiry"] + 1 if sim.rng.random() < 0.7 else 1)
    if sim.rng.random() < 0.4:
        node = sim.rng.choice(nodes)
        if node.stop():
            node.restart()
        else:
            world.violation("shutdown-hang", f"{node.name} did not stop")
            return
    for node in nodes:
        for p in plan["projects"]:
            old = seen.get((node.name, p))
            if not old:
                continue
            rec = ha.run(cl, dict(op="simple", stage=MIRROR, name=p, json=True, node=node.name))
            world.note_check("stale-serving")
            got = rec.get("links")
            if got != old:
                world.violation(
                    "mirror-unavailable", f"{node.name}: {p} with upstream gone: {diff(got or {}, old)} {show(rec)}")
                continue
            for fn in sorted(old):
                rec = ha.run(cl, dict(op="file", stage=MIRROR, name=p, n=sorted(old).index(fn), node=node.name))
                world.note_check("stale-serving")
                if rec is None or rec.get("status") != 200:
                    world.violation("mirror-unavailable", f"{node.name}: {fn} was fetched before: {rec and show(rec)}")
        rec = ha.run(cl, dict(op="list", stage=MIRROR, json=True, node=node.name))
        cached = {p for (nn, p), l in seen.items() if nn == node.name and l}
        if rec.get("status") != 200 or not cached <= set(rec["names"]):
            world.violation("mirror-unavailable", f"{node.name}: projects {cached} not all in {rec.get('names')} {show(rec)}")


def show(rec):
    return f"{rec['op']} on {rec['node']} t={rec['t0']:.1f}-{rec['t1']:.1f} -> {rec.get('status', rec.get('error'))} serial {rec.get('serial')} {(rec.get('body') or b'')[:150] if rec.get('status') != 200 else ''} {rec.get('exc', '')}"


def diff(got, want):
    out = []
    for k in sorted(set(got) | set(want)):
        if got.get(k) != want.get(k):
            out.append(f"{k}: got {got.get(k)} want {want.get(k)}")
    return "; ".join(out[:3])


# ---------------------------------------------------------------------------


class States:
    """what the private indexes said at some serial"""

    def __init__(self, node):
        self.log = node.changelog()
        self.cache = {}
        self.interesting = []   # serials which change users or project lists
        self.user = {}
        self.hist = {}
        for s in sorted(self.log):
            for relpath, (name, back, val) in self.log[s][0].items():
                if name in ("USER", "PROJNAMES", "PROJSIMPLELINKS"):
                    self.hist.setdefault(relpath, []).append((s, val))

    def value(self, relpath, serial):
        v = None
        for s, val in self.hist.get(relpath, ()):
            if s > serial:
                break
            v = val
        return v

    def config(self, stage, serial):
        user, index = stage.split("/")
        u = self.value(f"{user}/.config", serial) or {}
        return u.get("indexes", {}).get(index)

    def sro(self, stage, serial):
        todo = [stage]
        mirrors = []
        seen = []
        while todo:
            s = todo.pop(0)
            if s in seen:
                continue
            seen.append(s)
            cfg = self.config(s, serial) or {}
            for b in cfg.get("bases", ()):
                if b in seen:
                    continue
                bc = self.config(b, serial) or {}
                if bc.get("type") == "mirror":
                    if b not in mirrors:
                        mirrors.append(b)
                else:
                    todo.append(b)
        return seen + [m for m in mirrors if m not in seen]

    def private(self, stage, project, serial):
        return project in (self.value(f"{stage}/.projects", serial) or ())

    def links(self, stage, project, serial):
        v = self.value(f"{stage}/{project}/.simple", serial) or {}
        return {k: re_path(href) for k, href in v.get("links", ())}

    def mirror_allowed(self, stage, project, serial, mirror=MIRROR):
        """set of answers which are right: may links of the mirror be there?"""
        if stage == mirror:
            return {True}
        order = self.sro(stage, serial)
        if mirror not in order:
            return {False}
        cfg = self.config(stage, serial) or {}
        inh = cfg.get("mirror_whitelist_inheritance", "union")
        acc = None
        hits = []
        private = False
        for s in order[:order.index(mirror)]:
            if (self.config(s, serial) or {}).get("type") == "mirror":
                continue
            wl = set((self.config(s, serial) or {}).get("mirror_whitelist", ()))
            acc = wl if acc is None else (acc | wl if inh == "union" else acc & wl)
            hit = bool(acc & {"*", project})
            hits.append(hit)
            if self.private(s, project, serial) and not hit:
                private = True
        if not private:
            return {True}
        if not any(hits):
            return {False}
        return {True, False} if not all(hits) else {True}


def re_path(href):
    return href.split("#")[0]


def judge(world, ha, up, faults_end, skewed):
    plan = world.plan
    prim = world.primary
    expiry = plan["expiry"]
    states = States(prim)
    disk_faults = any(f["type"] == "disk" for f in plan["faults"])
    crash = any(f["type"] == "crash" for f in plan["faults"])
    lb = {}         # (node, project) -> [(t1, version)]
    resets = [r for r in ha.recs if r["op"]["op"] in ("refresh", "delcache")]
    last = len(up.versions) - 1

    def faulty(t0, t1):
        return any(a <= t1 and b >= t0 for a, b, m in up.windows)

    def touched(rec, project):
        """was the cached data deleted during or before the request?"""
        return any(r["op"]["name"] == project and r["t0"] <= rec["t1"] for r in resets)

    for rec in sorted(ha.recs, key=lambda r: (r["t1"], r["id"])):
        op = rec["op"]
        k = op["op"]
        dur = rec["t1"] - rec["t0"]
        world.note_check("mirror-response")
        node = world.nodes[rec["node"]]
        if dur > BOUND:
            world.violation("slow-response", f"{dur:.0f} s: {show(rec)}")
        if "error" in rec:
            if rec["error"] == "timeout":
                world.violation("slow-response", f"no answer: {show(rec)}")
            elif k != "file" and not crash and not disk_faults and not node.stops:
                world.violation("broken-response", f"the connection broke: {show(rec)} {node.app_errors[-1:]}")
            continue
        status = rec["status"]
        if "unparsable" in rec:
            world.violation("mirror-page", f"{rec['unparsable']}: {show(rec)}")
            continue
        broken = disk_faults or (crash and node is not prim)
        if status == 500 and "async loop" in str(rec.get("exc")) and any(
                world.plan["sched"].get(k) for k in ("stall_p", "slow", "slow_lock", "slow_io")):
            continue    # a thread which needs more than 2 s to start
        if status >= 500 and status not in (502,) and not broken:
            if k not in ("simple", "file", "list", "versions") or (
                    k == "file" and faulty(rec["t0"] - GRACE, rec["t1"])):
                continue
            world.violation("server-error", show(rec))
            continue
        if status == 502 and not broken and not faulty(rec["t0"] - GRACE, rec["t1"]) and rec["t0"] < faults_end and (
                not crash and dur < plan["timeout"] and k == "simple"):
            world.violation("mirror-error", f"upstream was fine: {show(rec)}")
            continue
        if k in ("simple", "versions"):
            judge_page(world, ha, up, states, rec, lb, expiry, faulty, touched, skewed, broken, last)
        elif k == "list":
            judge_list(world, up, states, rec, expiry, faulty, skewed)
        elif k == "file":
            judge_file(world, up, rec)


def judge_page(world, ha, up, states, rec, lb, expiry, faulty, touched, skewed, broken, last):
    op = rec["op"]
    st, p = op["stage"], op["name"]
    status = rec["status"]
    replica = rec["node"] != world.primary.name
    t0, t1 = rec["t0"], rec["t1"]
    hi = rec["serial"] if rec["serial"] is not None else rec["hi"]
    lo = min(rec["lo"], hi) if not replica else 0
    serials = range(lo, hi + 1)
    if replica and (states.config(st, hi) is None or states.config(MIRROR, hi) is None):
        return      # not there yet
    if status not in (200, 404, 502):
        if broken and status >= 500:
            return
        if st == MIRROR or status not in (403,):
            world.violation("mirror-page", f"status {status}: {show(rec)}")
        return
    # what was known before this request started
    known = -1
    for tt, v in lb.get((rec["node"], p), ()):
        if tt < t0:
            known = max(known, v)
    allowed = set()
    for s in serials:
        allowed |= states.mirror_allowed(st, p, s)
    if op["op"] == "versions":
        if status != 200 or st == MIRROR:
            return
        # only versions of allowed sources
        if allowed == {False}:
            priv = set()
            for s in serials:
                for x in states.sro(st, s):
                    if x != MIRROR:
                        priv |= {k for k in (states.value(f"{x}/{p}/.simple", s) or {}).get("links", ())} and set(
                            version_of(k[0]) for k in (states.value(f"{x}/{p}/.simple", s) or {}).get("links", ()))
            extra = set(rec["versions"]) - priv
            if extra:
                world.violation("mirror-leak", f"versions {extra} of the mirror for a private project: {show(rec)}")
        return
    links = rec.get("links", {})
    mine = {f: d for f, d in links.items() if d["path"].startswith(MIRROR + "/")}
    private = {f: d for f, d in links.items() if f not in mine}
    if status == 502:
        if known >= 0 and not touched(rec, p) and not broken:
            world.violation("mirror-unavailable", f"links of {p} were served before: {show(rec)}")
        return
    if mine and True not in allowed:
        world.violation(
            "mirror-leak", f"links of the mirror {sorted(mine)} for a private project not in mirror_whitelist: {show(rec)}")
        return
    # private links as of one serial
    if not replica:
        ok = False
        for s in serials:
            want = {}
            for x in states.sro(st, s):
                if x == MIRROR:
                    continue
                for fn, path in states.links(x, p, s).items():
                    want.setdefault(fn, path)
            if {f: d["path"] for f, d in private.items()} == want:
                ok = True
                break
        if not ok:
            world.violation("mirror-private", f"private links {sorted(private)}: {show(rec)}")
    if allowed == {False}:
        return
    must = allowed == {True}
    versions = range(up.version_no(up.t0), up.version_no(t1) + 1)
    match = []
    for v in versions:
        want = up.links(v, p)
        if want is None:
            if not mine:
                match.append(v)
            continue
        want = {f: x for f, x in want.items() if f not in private}
        if {f: (d["digest"], d["py"], d["yanked"]) for f, d in mine.items()} == want:
            match.append(v)
    if not mine:
        # nothing: not there (any more), or upstream has a problem and the
        # derived index does without
        if known >= 0 and must and not touched(rec, p) and not broken:
            w = up.links(known, p)
            if w and set(w) - set(private):
                world.violation("mirror-unavailable", f"links of {p} were served before: {show(rec)}")
                return
        if not must or faulty(t0 - GRACE, t1) or broken or skewed or t0 > up.down_at or (
                t1 - t0 >= 0.9 * world.plan["timeout"]):
            return
        bound = (2 * expiry + SLACK) * (2 if replica else 1)
        first = up.version_no(t0 - bound)
        if not any(v in match for v in range(first, up.version_no(t1) + 1)) and t0 - bound >= up.t0 - 1:
            world.violation("mirror-stale", f"{p} not found though upstream has it for {bound}s: {show(rec)}")
        elif t0 - bound < up.t0 and not match:
            world.violation("mirror-stale", f"{p} not found though upstream always had it: {show(rec)}")
        return
    if not match:
        world.violation(
            "mirror-links", f"the links of {p} are of no version of upstream's page, "
            f"nearest {diff({f: (d['digest'][:8], d['py'], d['yanked']) for f, d in mine.items()}, {f: (x[0][:8], x[1], x[2]) for f, x in (up.links(up.version_no(t1), p) or {}).items()})}: {show(rec)}")
        return
    s = rec["headers"].get("x-pypi-last-serial")
    if st == MIRROR and up.cfg["serials"] and s is not None and not op.get("browser"):
        # the reported serial belongs to the page
        if not any(up.state(v).get("+serials", {}).get(p, 0) + 1 == int(s) for v in match):
            world.violation("mirror-links", f"serial {s} does not belong to the links of versions {match}: {show(rec)}")
    if max(match) < known and not touched(rec, p) and not (
            # without serials nobody can tell which of two answers is newer;
            # two requests run at once only after one of them timed out
            not up.cfg["serials"] and any(
                r["t1"] - r["t0"] >= 0.9 * world.plan["timeout"] and r["t0"] <= t1
                for r in ha.recs)):
        world.violation(
            "mirror-regress", f"{p} went back from upstream version {known} to {max(match)}: {show(rec)}")
        return
    good = [v for v in match if v >= known]
    if good:
        lb.setdefault((rec["node"], p), []).append((t1, min(good)))
    # freshness
    if faulty(t0 - GRACE, t1) or broken or skewed or t0 > up.down_at:
        return
    bound = (expiry + SLACK) * (2 if replica else 1)
    first = up.version_no(t0 - bound)
    cur = range(first, up.version_no(t1) + 1)
    if any(v in match for v in cur):
        return
    if any(up.links(v, p) is None for v in cur):
        return    # removed upstream: stays available
    world.violation("mirror-stale", f"links of {p} are of version {max(match)}, older than {bound}s: {show(rec)}")


def version_of(fn):
    return fn.replace("-py3-none-any.whl", "").replace(".tar.gz", "").rsplit("-", 1)[-1]


def judge_list(world, up, states, rec, expiry, faulty, skewed):
    op = rec["op"]
    t0, t1 = rec["t0"], rec["t1"]
    if rec["status"] != 200:
        return
    names = set(rec["names"])
    ever = set()
    for v in range(up.version_no(t1) + 1):
        ever |= set(up.names(v))
    priv = set()
    serials = range(rec["lo"] if rec["node"] == "primary" else 0, rec["hi"] + 1)
    if op["stage"] != MIRROR:
        for s in serials:
            for x in states.sro(op["stage"], s):
                if x != MIRROR:
                    priv |= set(states.value(f"{x}/.projects", s) or ())
    if names - ever - priv:
        world.violation("mirror-list", f"unknown projects {names - ever - priv}: {show(rec)}")
    if op["stage"] != MIRROR and not any(MIRROR in states.sro(op["stage"], s) for s in serials):
        return
    if faulty(t0 - GRACE, t1) or skewed or t0 > up.down_at or world.plan["noprojlist"]:
        return
    bound = (expiry + SLACK) * (2 if rec["node"] != "primary" else 1)
    cur = range(up.version_no(t0 - bound), up.version_no(t1) + 1)
    if not any(set(up.names(v)) <= names for v in cur):
        world.violation("mirror-stale", f"project list {sorted(names)[:9]} lacks some of {up.names(cur[0])[:9]}: {show(rec)}")


def judge_file(world, up, rec):
    if rec["status"] != 200 or rec["op"].get("head"):
        return
    fn = rec["fn"]
    world.note_check("file-bytes")
    digest = hashlib.sha256(rec["body"]).hexdigest()
    if rec["digest"]:
        if digest != rec["digest"]:
            if any(rec["t0"] <= t <= rec["t1"] for t in up.corrupted.get(fn, ())):
                return      # passed on while it was being checked
            world.violation("wrong-bytes", f"{fn}: {len(rec['body'])} bytes with the wrong hash: {show(rec)}")
    elif rec["body"] != content(fn, 0):
        world.violation("wrong-bytes", f"{fn}: {len(rec['body'])} wrong bytes: {show(rec)}")
