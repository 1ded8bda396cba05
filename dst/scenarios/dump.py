"""devpi-export, devpi-import and devpi-fsck after arbitrary histories, next
to a running server, with failing disks and crashes in between."""
import hashlib
import logging
import os
import shutil
import sys

from .. import core, gen, model, ops, oracle, patches
from ..node import make_pluginmanager, ROOT_PASSWORD
from . import repl, store

SHRINK = [("faults",), ("clients",), ("clients", "*"), ("setup",), ("attempts",), ("imports",), ("damage",)]

FS = ["fs.openw", "fs.openw", "fs.write", "fs.write", "fs.close", "fs.mkdir", "fs.openr", "fs.rename", "fs.link"]
DB = ["db.read", "db.open", "db.write", "db.commit"]


def plan(seed, profile="export", **kw):
    rng = gen.rng_for("dump-" + profile, seed)
    p = store.plan(seed, rng.choice(["mixed", "files", "push", "delete", "inherit", "nonvolatile"]),
                   ops=rng.choice([25, 40, 60]))
    p["faults"] = [f for f in p["faults"] if f["type"] in ("crash", "stop", "disk")]
    if rng.random() < 0.6:
        p["faults"] = []
    for c in p["clients"]:
        for o in c["ops"]:
            if o["op"] in ("upload", "register") and rng.random() < 0.5:
                kw_ = o.setdefault("kw", {})
                kw_.update(rng.choice([
                    dict(description="a\nb\n\xe4\u20ac"), dict(keywords="x y"), dict(author="\xfcber"),
                    dict(classifiers=["a :: b", "c"]), dict(home_page="http://x/%7e"), dict(requires_dist=["z>1; extra=='t'"]), {}]))
    p.update(seed=seed, profile=profile)
    if profile == "fsck":
        p["damage"] = [dict(n=rng.randrange(100), how=rng.choice(
            ["remove", "truncate", "empty", "flip", "append", "swap", "cut"]), pos=rng.random())
            for _ in range(rng.choice([1, 1, 2, 3]))]
        p["checksum"] = rng.random() < 0.8
        return p
    p["live"] = [round(rng.random() * rng.choice([0.2, 1, 3]), 3) for _ in range(rng.choice([0, 1, 2]))]
    p["hard_links"] = rng.random() < 0.2
    p["attempts"] = [attempt(rng, crash=0.5) for _ in range(rng.choice([0, 1, 2]))]
    p["imports"] = [attempt(rng, crash=0.3) for _ in range(rng.choice([0, 1, 2]))]
    for f in p["imports"]:
        if f["kind"] == "fs.openr":
            # not the bookkeeping of the notification thread, for which the
            # import would wait for ever
            f["match"] = "+files"
    p["events"] = rng.random() < 0.5
    return p


def attempt(rng, crash):
    kind = rng.choice(FS + FS + DB)
    nth = int(rng.expovariate(1.0) * (40 if kind in ("db.read", "db.open") else 8))
    if rng.random() < crash:
        return dict(type="crash", kind=kind, nth=nth)
    return dict(type="disk", kind=kind, nth=nth, count=rng.choice([1, 1, 3]), err=rng.choice(["EIO", "ENOSPC"]))


class Result:
    rc = None
    exc = None
    crashed = False

    def __init__(self):
        self.lines = []
        self.errors = []

    def __repr__(self):
        return f"rc={self.rc} {self.exc or ''}{'crashed' if self.crashed else ''} {self.lines[-2:]}"

    @property
    def ok(self):
        return self.rc in (0, None) and self.exc is None and not self.crashed


class TW:
    def __init__(self, out):
        self.out = out

    def line(self, msg="", **kw):
        self.out.lines.append(msg)


def command(world, node, module, fname, args, fault=None, own=True):
    """one of the command line tools as a process on node's machine"""
    from devpi_server.main import CommandRunner
    import importlib
    sim = world.sim
    mod = importlib.import_module(module)
    out = Result()

    class Runner(CommandRunner):
        tw = TW(out)
        tw_err = TW(out)

        def __init__(self, pluginmanager=None):
            super().__init__(pluginmanager=make_pluginmanager(node.web))

        def configure_logging(self, args):
            pass
    mod.CommandRunner = Runner
    argv = [f"devpi-{fname}", "--serverdir", node.dir, *args]
    argv = [a.replace("@DIR@", node.dir) for a in argv]

    def run():
        try:
            if fname == "fsck":
                old, sys.argv = sys.argv, argv
                try:
                    out.rc = mod.fsck()
                finally:
                    sys.argv = old
            else:
                out.rc = getattr(mod, "import_" if fname == "import" else fname)(
                    pluginmanager=make_pluginmanager(node.web), argv=argv)
        except (SystemExit, Exception) as e:  # noqa: BLE001
            out.exc = f"{type(e).__name__}: {e}"
    if own:
        node.state = "command"
        node.alive = True
    if fault is not None:
        sim.faults_on = True
        world.faults_over = False
        if fault["type"] == "crash":
            world.triggers.append(dict(fault, node=node.name, restart=None))
        else:
            node.disk_targets.append(dict(fault, match=fault.get("match", "")))
    n = node.crashes
    t = sim.spawn(run, f"{node.name}:{fname}", node)
    if not sim.wait_until(lambda: t.state in (core.DONE, core.DEAD), 20000):
        out.exc = "still running after 20000 s"
    out.crashed = node.crashes != n
    if fault is not None:
        sim.faults_on = False
        world.faults_over = True
        world.triggers.clear()
        node.disk_targets.clear()
    if own and not out.crashed:
        # the process ends
        with core.quiet():
            os.makedirs(node.dir, exist_ok=True)
        node._down("stopped")
    sim.note("command", fname, out.rc, out.exc is not None, out.crashed)
    sim.count(f"command:{fname}:{'crash' if out.crashed else 'ok' if out.ok else 'failed'}")
    return out


def run(world):
    plan = world.plan
    sim = world.sim
    prim = world.add_node("primary", args=["--keyfs-cache-size", str(plan.get("cache", 10000))])
    world.init_node(prim, "--no-root-pypi")
    if not repl.start(world, prim):
        return
    base = prim.last_serial()
    world.harness.passwords.update(plan.get("passwords", {}))
    for op in plan.get("setup", ()):
        ops.execute(world, world.harness, op)
    world.schedule_faults(plan.get("faults", ()))
    dumps = []      # (directory, lowest, highest serial)
    live = []

    def live_export(i, at):
        sim.sleep(at)
        if prim.state != "up":
            return
        lo = prim.last_serial()
        gen_ = prim.gen
        d = os.path.join(world.base, f"live{i}")
        r = command(world, prim, "devpi_server.importexport", "export", ["@DIR@/+export"], own=False)
        hi = prim.last_serial()
        src = prim.path("+export")
        with core.quiet():
            if os.path.isdir(src):
                shutil.copytree(src, d)
                shutil.rmtree(src)
        if prim.gen != gen_:
            return      # died together with the server
        live.append(r)
        if r.ok:
            dumps.append((d, lo, hi, True))
    tasks = []
    if plan["profile"] == "export":
        def lives():
            for i, at in enumerate(plan["live"]):
                live_export(i, at)
        tasks.append(sim.spawn(lives, "live-export", quiet=1))
    if not world.run_clients(plan["clients"]):
        return
    for t in tasks:
        sim.join(t, 10000)
        if t.exc is not None:
            raise core.HarnessError(f"{t.name}: {t.exc!r}") from t.exc
    if not world.stop_faults():
        return
    lin = oracle.linearize(world, base, model.initial(), background=store.background)
    if world.violations:
        return
    if not prim.stop():
        world.violation("shutdown-hang", "primary did not stop")
        return
    if plan["profile"] == "fsck":
        return fsck(world, prim)
    last = prim.last_serial()
    # exports of the stopped server
    for i, fault in enumerate([*plan["attempts"], None]):
        d = os.path.join(world.base, f"dump{i}")
        args = ["@DIR@/+export"]
        if plan["hard_links"]:
            args.insert(0, "--hard-links")
        r = command(world, prim, "devpi_server.importexport", "export", args, fault)
        world.note_check("export")
        src = prim.path("+export")
        with core.quiet():
            if os.path.isdir(src):
                shutil.copytree(src, d)
                shutil.rmtree(src)
        if fault is None and not r.ok:
            world.violation("export-failed", f"export of a consistent server failed: {r}")
            return
        if r.ok or os.path.exists(os.path.join(d, "dataindex.json")):
            dumps.append((d, last, last, r.ok))
    n = 0
    for d, lo, hi, ok in dumps:
        for fault in [*(plan["imports"] if d == dumps[-1][0] else ()), None]:
            n += 1
            imp = world.add_node(f"imp{n}", args=["--keyfs-cache-size", str(plan.get("cache", 10000))])
            args = ["--root-passwd", "othersecret", "--no-root-pypi", d]
            if not plan["events"]:
                args.insert(0, "--no-events")
            if plan["hard_links"]:
                args.insert(0, "--hard-links")
            r = command(world, imp, "devpi_server.importexport", "import", args, fault)
            world.note_check("import")
            if not r.ok:
                if fault is None and ok:
                    world.violation("import-failed", f"import of a finished export failed: {r}")
                    return
                continue
            if not repl.start(world, imp):
                return
            compare(world, prim, imp, lin, lo, hi, plan["hard_links"])
            r = imp.stop()
            if world.violations:
                return


def compare(world, prim, imp, lin, lo, hi, hard):
    """the imported server has the same content as the exported one"""
    want = got = None
    err = None
    got = content(imp)
    for s in range(lo, hi + 1):
        want = content(prim, s)
        world.note_check("import-compare")
        if want == got:
            break
        err = err or oracle.diff(got, want)
    else:
        world.violation("import-differs", f"{imp.name}: export of serials {lo}-{hi}: {err}")
        return
    oracle.check_disk_files(world, imp)
    oracle.check_changelog(world, imp)
    oracle.check_kv(world, imp)
    if s == lin.last:
        oracle.dump_check(world, imp, lin.at(s), cls="import-differs")
        for u in ("root", *sorted(lin.at(s).users)):
            op = dict(op="api_get", **{"as": u})
            rec = ops.execute(world, world.harness, op, node=imp)
            rec["nocheck"] = True
            e = "no answer"
            if "status" in rec:
                for out in oracle.outcomes(lin.at(s), rec):
                    e = oracle.matches(world, rec, out)
                    if e is None:
                        break
            if e is not None:
                world.violation("import-differs", f"{imp.name}: login of {u}: {e}")


def norm(x):
    if hasattr(x, "items"):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x


def content(node, serial=None):
    """everything a dump has to preserve"""
    state = node.state_at(serial)
    out = {}
    for key, (name, s, val) in state.items():
        if not val:
            continue
        val = norm(val)
        if name == "USER":
            val.pop("username", None)
            out[f"user {key}"] = val
        elif name == "USERLIST":
            out["users"] = sorted(val)
        elif name == "PROJVERSION":
            links = []
            for link in val.pop("+elinks", ()):
                link = dict(link)
                if link["rel"] == "doczip":
                    link.pop("_log", None)
                links.append(link)
            out[f"version {key}"] = val
            links.sort(key=lambda x: (x["rel"], x["entrypath"]))
            out[f"links {key}"] = links
        elif name == "PROJVERSIONS":
            out[f"versions {key}"] = sorted(val)
        elif name == "PROJNAMES":
            out[f"projects {key}"] = sorted(val)
        elif name == "STAGEFILE":
            out[f"file {key}"] = val
    return out


class Errors(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.messages = []

    def emit(self, record):
        self.messages.append(record.getMessage())


def run_fsck(world, prim):
    handler = Errors()
    root = logging.getLogger()
    root.addHandler(handler)
    try:
        r = command(world, prim, "devpi_server.fsck", "fsck", [] if world.plan["checksum"] else ["--no-checksum"])
    finally:
        root.removeHandler(handler)
    return r, handler.messages


def fsck(world, prim):
    plan = world.plan
    r, errors = run_fsck(world, prim)
    world.note_check("fsck")
    if not r.ok or errors:
        world.violation("fsck-false-alarm", f"fsck on an intact server: {r} {errors[:3]}")
        return
    entries = {k: v for k, v in oracle.file_entries(prim.state_at()).items() if v.get("last_modified") is not None}
    names = sorted(entries)
    with core.quiet():
        for d in plan["damage"]:
            if not names:
                break
            k = names[d["n"] % len(names)]
            path = prim.path("+files", k)
            if not os.path.exists(path):
                continue
            with open(path, "rb") as f:
                c = f.read()
            pos = int(d["pos"] * len(c))
            how = d["how"]
            if how == "remove":
                os.remove(path)
                continue
            if how == "swap":
                other = prim.path("+files", names[(d["n"] + 1) % len(names)])
                if os.path.exists(other):
                    with open(other, "rb") as f:
                        c = f.read()
            else:
                c = dict(truncate=c[:pos], empty=b"", append=c + b"\0", cut=c[pos:],
                         flip=c[:pos] + bytes([c[pos] ^ 1 if pos < len(c) else 0]) + c[pos + 1:])[how]
            with open(path, "wb") as f:
                f.write(c)
    missing = set()
    wrong = set()
    for k, v in entries.items():
        c = prim.file_content(k)
        algo, digest = oracle.spec_of(v)
        if c is None:
            missing.add(k)
        elif hashlib.new(algo, c).hexdigest() != digest:
            wrong.add(k)
    bad = missing | (wrong if plan["checksum"] else set())
    world.sim.count("fault:damaged-file", len(missing | wrong))
    r, errors = run_fsck(world, prim)
    world.note_check("fsck")
    if r.exc is not None:
        world.violation("fsck-missed", f"fsck failed: {r}")
        return
    if "Couldn't initialize storage" in str(r.lines) and missing:
        # a file of the newest change is missing, which is noticed at once
        return
    named = {k for k in entries if any((e + " ").find(k + " ") >= 0 for e in errors)}
    if bad - named:
        world.violation("fsck-missed", f"damaged or missing {sorted(bad - named)[:3]} not reported: {r} {errors[:4]}")
    if named - bad:
        world.violation("fsck-false-alarm", f"{sorted(named - bad)[:3]} are fine but reported: {errors[:4]}")
    if bool(bad) == r.ok:
        world.violation("fsck-missed", f"{len(bad)} damaged files but result {r}")
