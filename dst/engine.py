"""Runs simulations: every run in a forked child of a booted, single threaded
zygote, so that runs can't influence each other and a run is a function of
(scenario, plan, seed) only."""
import gc
import json
import os
import random
import select
import shutil
import signal
import struct
import sys
import time
import traceback

from . import core

_scratch = None


def die_with_parent():
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def scratch():
    global _scratch
    if _scratch is None:
        import tempfile
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        if base is not None:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 200 * 1024 * 1024:
                base = None
        _scratch = tempfile.mkdtemp(prefix="devpi-dst-", dir=base)
    return _scratch


def cleanup():
    global _scratch
    if _scratch is not None:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


def run_here(scenario, plan, base):
    """one simulated execution in this process; returns a JSON-able result."""
    from . import scenarios
    t0 = core.real_time()
    mod = scenarios.get(scenario)
    plan = json.loads(json.dumps(plan))     # as it comes from a replay file
    result = dict(violations=[], error=None)
    from .world import World
    world = None
    random.seed(plan.get("seed", 0))
    try:
        world = World(plan, base)
        mod.run(world)
        world.finish()
    except core.BudgetExceeded as e:
        result["inconclusive"] = str(e)
    except Exception:  # noqa: BLE001
        result["error"] = traceback.format_exc()[-6000:]
    if world is not None:
        sim = world.sim
        core.SIM = None
        result["violations"] = world.violations
        result["known"] = world.known
        result["digest"] = sim.digest()
        result["sim_time"] = round(sim.now, 3)
        result["steps"] = sim.steps
        result["switches"] = sim.switches
        result["stats"] = sim.stats
        result["states"] = sorted(sim.states)
        result["checks"] = world.checks
        if plan.get("sched", {}).get("trace") or result["violations"]:
            result["log"] = [list(map(str, r)) for r in sim.log[-400:]]
        if os.environ.get("DST_FULLLOG"):
            with core_open()(os.environ["DST_FULLLOG"], "w") as f:
                for r in sim.log:
                    f.write(repr(r) + "\n")
        from .boot import capture
        if result["violations"] or result["error"] or os.environ.get("DST_WARN"):
            result["warnings"] = [list(map(str, r)) for r in capture.records[-40:]]
    result["wall"] = core.real_time() - t0
    return result


def core_open():
    from . import patches
    return patches.real["open"]


def child_run(scenario, plan, timeout=120.0):
    """fork, run, collect."""
    r, w = os.pipe()
    base = os.path.join(scratch(), f"r{os.getpid()}")
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            die_with_parent()
            gc.disable()
            os.makedirs(base, exist_ok=True)
            res = run_here(scenario, plan, base)
            data = json.dumps(res).encode()
            data = struct.pack(">I", len(data)) + data
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            code = 1
        finally:
            from . import patches
            patches.real["os._exit"](code)
    os.close(w)
    chunks = []
    end = core.real_time() + timeout
    timed_out = False
    while True:
        left = end - core.real_time()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        data = os.read(r, 1 << 20)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    if timed_out:
        try:
            os.kill(pid, signal.SIGUSR1)
            core.real_sleep(0.3)
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    os.waitpid(pid, 0)
    shutil.rmtree(base, ignore_errors=True)
    data = b"".join(chunks)
    if timed_out or len(data) < 4:
        return dict(violations=[], error="hang" if timed_out else "child died", wall=timeout)
    return json.loads(data[4:])


class Pool:
    """worker processes which run (index, scenario, plan) jobs."""

    def __init__(self, n):
        self.n = n
        self.workers = []
        scratch()

    def start(self, jobs_for):
        """jobs_for(i, n) yields (key, scenario, plan); results are streamed."""
        self.workers = []
        for i in range(self.n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    die_with_parent()
                    os.close(r)
                    for (rr, _p) in self.workers:
                        os.close(rr)
                    signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    for key, scenario, plan in jobs_for(i, self.n):
                        res = child_run(scenario, plan)
                        data = json.dumps([key, scenario, plan, res]).encode()
                        data = struct.pack(">I", len(data)) + data
                        while data:
                            m = os.write(w, data)
                            data = data[m:]
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                finally:
                    from . import patches
                    patches.real["os._exit"](0)
            os.close(w)
            self.workers.append((r, pid))

    def results(self):
        bufs = {r: bytearray() for r, pid in self.workers}
        open_ = set(bufs)
        while open_:
            ready, _, _ = select.select(sorted(open_), [], [], 5.0)
            if not ready:
                yield None
                continue
            for r in ready:
                data = os.read(r, 1 << 20)
                if not data:
                    open_.discard(r)
                    continue
                b = bufs[r]
                b += data
                while len(b) >= 4:
                    (n,) = struct.unpack(">I", b[:4])
                    if len(b) < 4 + n:
                        break
                    msg = json.loads(bytes(b[4:4 + n]))
                    del b[:4 + n]
                    yield msg

    def stop(self):
        for r, pid in self.workers:
            for kill in (os.killpg, os.kill):
                try:
                    kill(pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
        for r, pid in self.workers:
            try:
                os.close(r)
            except OSError:
                pass
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
        self.workers = []


# ---------------------------------------------------------------------------
# minimisation


def same_failure(res, cls):
    return any(v["cls"] == cls for v in res.get("violations", ()))


def minimise(scenario, plan, cls, budget=40.0, log=None):
    """greedily remove parts of the plan while the violation class persists."""
    end = core.real_time() + budget
    best = json.loads(json.dumps(plan))
    tried = 0

    def attempt(cand):
        nonlocal best, tried
        if core.real_time() >= end:
            return False
        tried += 1
        res = child_run(scenario, cand, timeout=60)
        if same_failure(res, cls):
            best = cand
            return True
        return False

    def shrink_list(path):
        def get(p):
            o = p
            for k in path:
                o = o[k]
            return o
        try:
            n = len(get(best))
        except (KeyError, IndexError, TypeError):
            return
        size = max(1, n // 2)
        while size >= 1 and core.real_time() < end:
            i = 0
            while i < len(get(best)) and core.real_time() < end:
                cand = json.loads(json.dumps(best))
                lst = get(cand)
                del lst[i:i + size]
                if not attempt(cand):
                    i += size
            size //= 2

    from . import scenarios
    mod = scenarios.get(scenario)
    for path in getattr(mod, "SHRINK", [("faults",), ("clients",)]):
        if path and path[-1] == "*":
            base = best
            for k in path[:-1]:
                base = base.get(k, [])
            # e.g. clients/*/ops
            for i in range(len(base)):
                shrink_list(path[:-1] + (i, "ops"))
        else:
            shrink_list(path)
    for key, val in getattr(mod, "SIMPLIFY", [
            (("net", "faults"), {}), (("sched", "stall_p"), 0.0), (("sched", "slow"), {}),
            (("sched", "preempt"), {"default": 0.0})]):
        cand = json.loads(json.dumps(best))
        o = cand
        for k in key[:-1]:
            o = o.setdefault(k, {})
        if o.get(key[-1]) != val:
            o[key[-1]] = val
            attempt(cand)
    return best, tried


def wall():
    return time.time() if core.SIM is None else core.real_time()


def eprint(*args):
    print(*args, file=sys.stderr)
