"""A simulated devpi-server process (primary or replica)."""
import hashlib
import os
import re
import sqlite3

from . import core, patches
from .core import DEAD, DONE, BLOCKED
from .net import Host

STORED = re.compile(r"\+files/[^/]+/[^/]+/\+f/([0-9a-f]{3})/([0-9a-f]{13})/[^/]+$")
ROOT_PASSWORD = "rootpw"

_eps = None


def entry_points():
    global _eps
    if _eps is None:
        import importlib.metadata as md
        _eps = []
        for dist in md.distributions():
            for ep in dist.entry_points:
                if ep.group == "devpi_server":
                    _eps.append((dist, ep, ep.load()))
        _eps.sort(key=lambda x: (x[0].metadata["Name"], x[1].name))
        seen = set()
        uniq = []
        for d, e, p in _eps:
            if e.name not in seen:
                seen.add(e.name)
                uniq.append((d, e, p))
        _eps = uniq
    return _eps


def make_pluginmanager(web=False, extra=()):
    from devpi_server.config import get_pluginmanager
    from pluggy._manager import DistFacade
    pm = get_pluginmanager(load_entrypoints=False)
    for dist, ep, plugin in entry_points():
        name = dist.metadata["Name"].lower().replace("_", "-")
        if name == "devpi-server" or (web and name == "devpi-web"):
            pm.register(plugin, name=ep.name)
            pm._plugin_distinfo.append((plugin, DistFacade(dist)))
    for plugin in extra:
        pm.register(plugin)
    pm.check_pending()
    return pm


ARGON = ["--argon2-memory-cost", "8", "--argon2-parallelism", "1", "--argon2-time-cost", "1"]


class DiskFull(Exception):
    pass


def during(task, kinds):
    """is the task working for one of these client operations?"""
    return task.op is not None and task.op["op"]["op"] in kinds


class Node(Host):
    def __init__(self, sim, name, base, netloc, args=(), web=False, role="primary",
                 primary_url=None, plugins=(), monitor=None):
        super().__init__(name)
        self.sim = sim
        self.base = base
        self.gen = 0
        self.role = role
        self.netloc = netloc
        self.args = list(args)
        self.web = web
        self.primary_url = primary_url
        self.plugins = plugins
        self.alive = False
        self.state = "new"
        self.app_errors = []
        self.main_task = None
        self.fatal = None
        self.exit_codes = []
        self.disk_rates = {}
        self.disk_targets = []     # [kind, remaining-nth, err, count]
        self.disk_full_until = None
        self.removed_inflight = {}   # task -> [rel paths removed, not committed]
        self.lost = set()            # removed without the commit happening
        self.crashes = 0
        self.stops = 0
        self.ready_waiters = []
        self.log = []
        self.commits = []
        self.world = None
        self.committed_serial = -1
        self.dir = os.path.join(base, f"{name}.g0")
        self.skew_log = [(0.0, 0.0)]
        sim.net.add(netloc, self)

    def set_skew(self, skew):
        if skew != self.skew:
            self.skew = skew
            self.skew_log.append((self.sim.now, skew))

    # -- directories -------------------------------------------------------

    def path(self, *parts):
        return os.path.join(self.dir, *parts)

    def fork_dir(self):
        """the durable state as of now, in a fresh directory."""
        with core.quiet():
            self.gen += 1
            new = os.path.join(self.base, f"{self.name}.g{self.gen}")
            copy_tree(self.dir, new)
            old = self.dir
            self.dir = new
            return old

    # -- life cycle --------------------------------------------------------

    def argv(self):
        argv = ["devpi-server", "--serverdir", self.dir, *ARGON,
                "--host", self.netloc.split(":")[0], "--port", "3141"]
        if self.role == "replica":
            argv += ["--primary-url", self.primary_url]
        return argv + self.args

    def start(self):
        assert self.state != "up"
        self.state = "starting"
        self.alive = True
        self.app = None
        self.fatal = None
        self.xom = None
        self.main_task = self.sim.spawn(self._main, f"{self.name}:main", self)

    def _main(self):
        import devpi_server.main as main
        runner = main.CommandRunner(pluginmanager=make_pluginmanager(self.web, self.plugins))
        node = self

        class TW:
            def line(self, msg="", **kw):
                node.log.append(msg)
        runner.__dict__["tw_err"] = TW()
        try:
            with runner:
                main._main(runner.pluginmanager, argv=self.argv())
            self.rc = runner.return_code
            if self.rc:
                self.fatal = "; ".join(self.log[-2:])
        except KeyboardInterrupt:
            self.rc = 0
        except (SystemExit, Exception) as e:  # noqa: BLE001
            import traceback
            self.fatal = f"{type(e).__name__}: {e}"
            self.log.append(traceback.format_exc())
        self.sim.note("main-exit", self.name)
        self._down("stopped" if self.fatal is None else "failed")

    def serve(self, app):
        """stand-in for waitress.serve: runs in the server's MainThread."""
        self.app = app
        self.xom = getattr(app, "xom", None)
        self.state = "up"
        self.sim.note("up", self.name)
        self.sim.wake_all(self.ready_waiters)
        self.sim.block([], None)

    def wait_up(self, timeout=60):
        end = self.sim.now + timeout
        while self.state == "starting" and self.sim.now < end:
            self.sim.block(self.ready_waiters, end - self.sim.now)
        return self.state == "up"

    def _down(self, state):
        me = self.sim.cur
        for t in list(self.tasks):
            if t is not me:
                self.sim.kill(t)
        if state == "crashed" and me in self.tasks:
            self.sim.kill(me)
        self.tasks = [t for t in self.tasks if t is me and me.state != DEAD]
        self.alive = False
        self.app = None
        self.state = state
        for paths in self.removed_inflight.values():
            self.lost.update(paths)
        self.removed_inflight.clear()
        self.fork_dir()
        self.sim.net.host_down(self)
        self.sim.wake_all(self.ready_waiters)

    def crash(self):
        """kill -9: only what is on disk right now survives."""
        if not self.alive:
            return False
        self.crashes += 1
        self.sim.count("fault:crash")
        self.sim.note("crash", self.name)
        self._down("crashed")
        return True

    def exited(self, code):
        """the node called os._exit."""
        self.exit_codes.append(code)
        self.sim.note("os._exit", self.name, code)
        self._down("exited")
        t = self.sim.cur
        self.sim.kill(t)
        self.sim._switch(t)

    def stop(self, timeout=120):
        """Ctrl-C; True if the process ended within timeout."""
        if not self.alive:
            return True
        t = self.main_task
        self.stops += 1
        self.sim.note("stop", self.name)
        end = self.sim.now + timeout
        while self.sim.now < end:
            if t.state in (DONE, DEAD):
                return True
            if t.state == BLOCKED and self.state == "up":
                t.inject = KeyboardInterrupt()
                self.sim.wake(t)
                break
            self.sim.sleep(0.05)
        return self.sim.join(t, max(0.0, end - self.sim.now))

    def restart(self, timeout=60):
        self.start()
        return self.wait_up(timeout)

    # -- disk faults ---------------------------------------------------------

    def disk_fault(self, kind, rel):
        sim = self.sim
        if not sim.faults_on:
            return
        err = None
        for target in self.disk_targets:
            if target["kind"] == kind and target["count"] > 0 and target.get("match", "") in rel:
                if target.get("ops") and not during(sim.cur, target["ops"]):
                    continue
                target["nth"] -= 1
                if target["nth"] < 0:
                    target["count"] -= 1
                    err = target["err"]
                    break
        if err is None:
            if self.disk_full_until is not None:
                if sim.now < self.disk_full_until:
                    if kind in ("fs.write", "fs.openw", "fs.mkdir", "db.commit", "db.write"):
                        err = "ENOSPC" if sim.fault_rng.random() < 0.7 else None
                else:
                    self.disk_full_until = None
        if err is None:
            rate = self.disk_rates.get(kind)
            if rate and sim.fault_rng.random() < rate:
                err = "EIO"
        if err is None:
            return
        sim.count(f"fault:disk-{err}:{kind}")
        sim.note("disk-fault", self.name, kind, err)
        if kind.startswith("db."):
            raise sqlite3.OperationalError(
                "database or disk is full" if err == "ENOSPC" else "disk I/O error")
        import errno
        code = getattr(errno, err)
        raise OSError(code, os.strerror(code), self.path(rel.lstrip("/")))

    def fs_done(self, op, rel):
        if op == "remove":
            self.removed_inflight.setdefault(self.sim.cur, []).append(rel)
        elif op == "rename":
            # the destination exists (again)
            for paths in self.removed_inflight.values():
                if rel in paths:
                    paths.remove(rel)
            self.check_stored(rel)

    def check_stored(self, rel):
        """a file gets its final name only when it is complete"""
        if rel.endswith("-tmp") or self.world is None:
            return
        m = STORED.search(rel)
        if m is None or ".toxresult" in rel:
            return
        with core.quiet():
            with patches.real["open"](self.path(rel.lstrip("/")), "rb") as f:
                content = f.read()
        self.sim.count("check:stored-file")
        for algo in ("sha256", "md5", "sha1", "sha512"):
            if hashlib.new(algo, content).hexdigest().startswith(m.group(1) + m.group(2)):
                return
        self.world.violation(
            "file-corrupt", f"{self.name}: {rel} gets its final name with incomplete or wrong content ({len(content)} bytes)")

    def committed(self):
        self.removed_inflight.pop(self.sim.cur, None)
        serial = self.last_serial()
        if serial != self.committed_serial:
            self.committed_serial = serial
            op = self.sim.cur.op
            self.commits.append((serial, op, self.sim.cur.name, round(self.sim.now, 6)))
            self.sim.note("commit", self.name, serial)
            if op is not None:
                op.setdefault("commits", []).append((self.name, serial))

    def tx_dropped(self):
        self.lost.update(self.removed_inflight.pop(self.sim.cur, ()))

    # -- harness side inspection ------------------------------------------------

    def db(self):
        return patches.real["sqlite3.connect"](
            "file:%s?mode=ro" % self.path(".sqlite"), uri=True, timeout=0)

    def last_serial(self):
        with core.quiet():
            conn = self.db()
            try:
                res = conn.execute("select max(serial) from changelog").fetchone()[0]
            finally:
                conn.close()
        return -1 if res is None else res

    def raw_changelog(self, start=0):
        with core.quiet():
            conn = self.db()
            try:
                return dict(conn.execute(
                    "select serial, data from changelog where serial >= ?", (start,)).fetchall())
            finally:
                conn.close()

    def changelog(self, start=0):
        """serial -> {relpath: (keyname, back_serial, value)}, renames"""
        from devpi_server.fileutil import loads
        return {s: loads(bytes(d)) for s, d in self.raw_changelog(start).items()}

    def state_at(self, serial=None, log=None):
        """relpath -> (keyname, serial, value) as of serial."""
        log = self.changelog() if log is None else log
        result = {}
        for s in sorted(log):
            if serial is not None and s > serial:
                break
            for relpath, (keyname, back, val) in log[s][0].items():
                result[relpath] = (keyname, s, val)
        return result

    def file_content(self, relpath):
        """content of a stored release file or None."""
        with core.quiet():
            try:
                with open(self.path("+files", relpath), "rb") as f:
                    return f.read()
            except FileNotFoundError:
                return None


def copy_tree(src, dst):
    os.makedirs(dst)
    with os.scandir(src) as it:
        entries = sorted(it, key=lambda e: e.name)
    for e in entries:
        d = os.path.join(dst, e.name)
        if e.is_dir(follow_symlinks=False):
            copy_tree(e.path, d)
        else:
            with open(e.path, "rb") as f:
                data = f.read()
            with open(d, "wb") as f:
                f.write(data)
            st = e.stat()
            os.chmod(d, st.st_mode & 0o777)


def sim_serve(app, **kw):
    core.SIM.cur.node.serve(app)


def install_server():
    """process wide stand-ins which need devpi or its dependencies."""
    import waitress
    waitress.serve = sim_serve
    from passlib.hash import argon2
    argon2.default_rounds = 1
    argon2.memory_cost = 8
    argon2.parallelism = 1
    import devpi_server.main as main
    main.configure_logging = lambda args: None
    main.configure_cli_logging = lambda args: None
    # the pool stores the thread on the function it runs, which would be
    # shared by all nodes of this process
    from devpi_server.mythread import ThreadPool
    pool_run = ThreadPool.run

    def run(self, func, *args, **kwargs):
        return pool_run(self, lambda *a, **kw: func(*a, **kw), *args, **kwargs)
    ThreadPool.run = run
    entry_points()
