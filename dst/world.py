"""One simulated deployment: nodes, clients, stubs, faults."""
import os

from . import core, net, ops
from .node import Node, during


class Client:
    def __init__(self, world, name, user=None, node="primary"):
        self.world = world
        self.name = name
        self.user = user
        self.node = node
        self.host = net.Host(name)
        self.tokens = {}
        self.passwords = {"root": "rootpw"}


class World:
    def __init__(self, plan, base):
        self.plan = plan
        self.base = base
        cfg = dict(plan.get("sched", {}))
        self.sim = core.SIM = core.Sim(plan["seed"], cfg)
        self.sim.net = net.Network(self.sim, plan.get("net", {}))
        self.sim.net.harness = net.Host("harness")
        self.sim.world = self
        self.sim.point_hook = self.on_point
        self.nodes = {}
        self.primary = None
        self.history = []
        self.violations = []
        self.known = []
        self.checks = {}
        self.triggers = []      # armed crash points
        self.restart_after = {}
        self.pending = 0        # running controller actions
        self.harness = Client(self, "harness", "root")
        self.secretfile = os.path.join(base, "secret")
        with core_open()(self.secretfile, "w") as f:
            f.write("Jx8-fQmB2tLzVw7RkNc4PyHsGdUe1aXo9TiMb5uWqEv0")
        os.chmod(self.secretfile, 0o600)
        os.chmod(base, 0o700)
        self.faults_over = False
        self.crash_log = []

    # -- setup -----------------------------------------------------------

    def add_node(self, name, role="primary", args=(), **kw):
        a = ["--secretfile", self.secretfile, *args]
        n = Node(self.sim, name, self.base, f"{name}:3141", args=a, role=role, **kw)
        n.world = self
        self.nodes[name] = n
        if role == "primary" and self.primary is None:
            self.primary = n
        return n

    def init_node(self, node, *args):
        """devpi-init inside the simulation (without faults)."""
        from devpi_server.init import init
        from .node import make_pluginmanager, ROOT_PASSWORD
        sim = self.sim

        class Out:
            rc = None

        def run():
            rc = init(pluginmanager=make_pluginmanager(node.web),
                      argv=["devpi-init", "--serverdir", node.dir, "--root-passwd", ROOT_PASSWORD, *args])
            Out.rc = rc
        t = sim.spawn(run, f"{node.name}:init", node, quiet=1)
        sim.join(t)
        if t.exc is not None or Out.rc not in (None, 0):
            raise core.HarnessError(f"init failed: {t.exc!r} {Out.rc}")
        node.committed_serial = node.last_serial()

    # -- faults ------------------------------------------------------------

    def on_point(self, task, kind, detail):
        node = task.node
        if node is None:
            return
        for tr in self.triggers:
            if tr["node"] != node.name or tr["kind"] != kind:
                continue
            if tr.get("match") and tr["match"] not in (detail or ""):
                continue
            if tr.get("task") and tr["task"] not in task.name:
                continue
            if tr.get("ops") and not during(task, tr["ops"]):
                continue
            if tr.get("state") and node.state != tr["state"]:
                continue
            tr["nth"] -= 1
            if tr["nth"] < 0:
                self.triggers.remove(tr)
                self.crash_node(node, tr.get("restart", 1.0), f"{kind}")
                return

    def crash_node(self, node, restart_after, where="time"):
        if not node.alive or self.faults_over:
            return
        self.crash_log.append((node.name, where, round(self.sim.now, 3)))
        self.sim.count(f"crash-at:{where}")
        self.sim.states.add(f"crash:{node.role}:{where}:{node.state}")
        node.crash()
        if restart_after is not None:
            self.pending += 1
            self.sim.spawn(lambda: self._restarter(node, restart_after), f"restart-{node.name}", quiet=1)

    def _restarter(self, node, delay):
        try:
            self.sim.sleep(delay)
            if node.alive:
                return
            self.sim.count("fault:restart")
            node.start()
            node.wait_up(120)
        finally:
            self.pending -= 1

    def schedule_faults(self, faults):
        """faults is a list of dicts with "at" (seconds) or "kind" (point)."""
        for f in faults:
            t = f["type"]
            if t == "crash" and "kind" in f:
                self.triggers.append(dict(f))
            elif t == "disk":
                self.nodes[f["node"]].disk_targets.append(
                    dict(kind=f["kind"], nth=f["nth"], count=f.get("count", 1),
                         err=f.get("err", "EIO"), match=f.get("match", ""), ops=f.get("ops")))
            elif t == "disk_rate":
                self.nodes[f["node"]].disk_rates[f["kind"]] = f["rate"]
        timed = sorted((f for f in faults if "at" in f), key=lambda f: f["at"])
        if timed:
            self.pending += 1
            self.sim.spawn(lambda: self._timeline(timed), "timeline", quiet=1)

    def _timeline(self, timed):
        sim = self.sim
        start = sim.now
        try:
            for f in timed:
                dt = start + f["at"] - sim.now
                if dt > 0:
                    sim.sleep(dt)
                if self.faults_over:
                    return
                self.apply_fault(f)
        finally:
            self.pending -= 1

    def apply_fault(self, f):
        sim = self.sim
        t = f["type"]
        sim.note("fault", t)
        if t == "crash":
            node = self.nodes[f["node"]]
            if node.alive:
                self.crash_node(node, f.get("restart", 1.0))
        elif t == "stop":
            node = self.nodes[f["node"]]
            if node.state == "up":
                sim.count("fault:graceful-restart")
                self.graceful(node, f.get("restart", 1.0))
        elif t == "partition":
            sim.count("fault:partition")
            sim.net.blocked.add(frozenset((f["a"], f["b"])))
            self.pending += 1

            def heal():
                sim.sleep(f["duration"])
                sim.net.blocked.discard(frozenset((f["a"], f["b"])))
                sim.note("heal")
                self.pending -= 1
            sim.spawn(heal, "heal", quiet=1)
        elif t == "skew":
            sim.count("fault:clock-jump")
            node = self.nodes[f["node"]]
            node.set_skew(node.skew + f["delta"])
        elif t == "disk_full":
            sim.count("fault:disk-full-window")
            self.nodes[f["node"]].disk_full_until = sim.now + f["duration"]
        elif t == "call":
            f["fn"](self)
        else:
            handler = getattr(self, "fault_" + t, None)
            if handler is None:
                raise core.HarnessError(f"unknown fault {t}")
            handler(f)

    def graceful(self, node, restart):
        before = [t.name for t in node.tasks if ":req" not in t.name]
        t0 = self.sim.now
        inflight = node.busy
        ok = node.stop(timeout=600)
        self.note_check("graceful-stop")
        if not ok:
            self.violation("shutdown-hang", f"{node.name} did not stop within 600s, tasks: {before}")
            node.crash()
        self.stop_log.append((node.name, self.sim.now - t0, inflight, [
            t.name for t in node.tasks])) if hasattr(self, "stop_log") else None
        self.sim.sleep(restart)
        if not node.alive:
            node.start()
            node.wait_up(120)

    def stop_faults(self):
        """no more faults; everything which is down gets restarted."""
        sim = self.sim
        self.faults_over = True
        self.triggers.clear()
        sim.faults_on = False
        sim.net.enabled = False
        sim.net.blocked.clear()
        for n in self.nodes.values():
            n.disk_targets.clear()
            n.disk_rates.clear()
            n.disk_full_until = None
            n.set_skew(0.0)    # the clocks are set right again
        if not sim.wait_until(lambda: self.pending == 0, 2000):
            raise core.HarnessError("controllers do not finish")
        for n in self.nodes.values():
            if not n.alive:
                n.start()
            if n.state != "up" and not n.wait_up(300):
                self.violation(
                    "restart-failed",
                    f"{n.name} does not come up: {n.state} {n.fatal} {n.log[-1:]}")
                return False
        return True

    # -- clients -------------------------------------------------------------

    def run_clients(self, clients, timeout=100000):
        """clients: list of dict(name, user, node, ops)."""
        sim = self.sim
        tasks = []
        for c in clients:
            cl = Client(self, c["name"], c.get("user"), c.get("node", "primary"))
            cl.passwords.update(self.plan.get("passwords", {}))
            t = sim.spawn(lambda cl=cl, c=c: self._client(cl, c), f"client-{c['name']}", quiet=1)
            tasks.append((c["name"], t))
        end = sim.now + timeout
        for name, t in tasks:
            if not sim.join(t, max(0.0, end - sim.now)):
                self.violation("client-stuck", f"client {name} did not finish")
                return False
            if t.exc is not None:
                raise core.HarnessError(f"client {name} failed: {t.exc!r}") from t.exc
        return True

    def _client(self, cl, c):
        sim = self.sim
        for op in c["ops"]:
            if op.get("d"):
                sim.sleep(op["d"])
            if op["op"] == "sleep":
                sim.sleep(op["secs"])
                continue
            rec = ops.execute(self, cl, op)
            n = 0
            while rec.get("error") == "refused" and n < 3 and not op.get("noretry"):
                # nothing was sent: as good as not having tried
                n += 1
                sim.sleep(0.7 * n)
                rec = ops.execute(self, cl, op)

    # -- results -------------------------------------------------------------

    def violation(self, cls, msg, known=None):
        if known is not None:
            if not any(k["id"] == known for k in self.known):
                self.known.append(dict(id=known, cls=cls, msg=msg[:500]))
            return
        self.sim.note("VIOLATION", cls)
        if len(self.violations) < 30:
            self.violations.append(dict(cls=cls, msg=msg[:1500], t=round(self.sim.now, 3)))

    def note_check(self, name, n=1):
        self.checks[name] = self.checks.get(name, 0) + n

    def finish(self):
        pass

    def spawn_in(self, node, fn, name):
        return self.sim.spawn(fn, f"{node.name}:{name}", node)


def core_open():
    from . import patches
    return patches.real["open"]
