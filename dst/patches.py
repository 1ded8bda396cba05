"""Put every source of nondeterminism behind the simulator's seams.

``install()`` must run before anything of devpi is imported.  With no active
simulation the replacements behave like the originals (single threaded).
"""
import _thread
import builtins
import errno
import io
import os
import logging          # noqa: F401  (must be imported before the patches)
import random
import sqlite3
import sys
import threading
import time
import queue
import asyncio
import selectors        # noqa: F401
import concurrent.futures   # noqa: F401
import uuid             # noqa: F401
import secrets          # noqa: F401

from . import core
from .core import SimLock, SimRLock

real = {}


class SimDisk(OSError):
    pass


def node_for_path(path):
    """the simulated node owning path (None for paths outside)."""
    sim = core.SIM
    if sim is None:
        return None
    node = sim.cur.node
    if node is None:
        return None
    try:
        path = os.fspath(path)
    except TypeError:
        return None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if path.startswith(node.dir):
        return node
    return None


def fs_point(op, path, path2=None):
    """seam for one file system operation below a node's directory."""
    sim = core.SIM
    if sim is None or sim.cur.quiet:
        return
    node = node_for_path(path)
    if node is None:
        return
    rel = os.fspath(path)[len(node.dir):]
    sim.point("fs." + op, rel)
    node.disk_fault("fs." + op, rel)


class WFile:
    """write side of a file below a node directory."""

    def __init__(self, f, path, node):
        self._f = f
        self._path = path
        self._node = node
        self._rel = os.fspath(path)[len(node.dir):]
        # names of temporary files are not deterministic

    def write(self, data):
        sim = core.SIM
        if sim is not None and not sim.cur.quiet:
            sim.point("fs.write", self._rel)
            try:
                self._node.disk_fault("fs.write", self._rel)
            except OSError:
                # short write: part of the data reaches the disk
                n = len(data) // 2
                self._f.write(data[:n])
                self._f.flush()
                raise
            if sim.fault_rng.random() < 0.3:
                n = len(data) // 2
                self._f.write(data[:n])
                self._f.flush()
                sim.point("fs.write", self._rel)
                self._f.write(data[n:])
                return len(data)
        return self._f.write(data)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def close(self):
        fs_point("close", self._path) if not self._f.closed else None
        self._f.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, name):
        return getattr(self._f, name)


def sim_open(file, mode="r", *args, **kw):
    sim = core.SIM
    if sim is None or isinstance(file, int):
        return real["open"](file, mode, *args, **kw)
    node = node_for_path(file)
    if node is None or sim.cur.quiet:
        return real["open"](file, mode, *args, **kw)
    writing = any(c in mode for c in "wxa+")
    fs_point("openw" if writing else "openr", file)
    f = real["open"](file, mode, *args, **kw)
    if writing and "a" not in mode:
        return WFile(f, file, node)
    return f


def _wrap_fs(name, op, twoargs=False):
    orig = getattr(os, name)
    real["os." + name] = orig

    if twoargs:
        def wrapper(src, dst, *args, **kw):
            fs_point(op, dst)
            rv = orig(src, dst, *args, **kw)
            fs_done(op, dst)
            return rv
    else:
        def wrapper(path, *args, **kw):
            fs_point(op, path)
            rv = orig(path, *args, **kw)
            fs_done(op, path)
            return rv
    wrapper.__name__ = name
    setattr(os, name, wrapper)


def fs_done(op, path):
    sim = core.SIM
    if sim is None or sim.cur.quiet:
        return
    node = node_for_path(path)
    if node is None:
        return
    node.fs_done(op, os.fspath(path)[len(node.dir):])
    sim.point("fs.after-" + op)


# ---------------------------------------------------------------------------
# sqlite


class SimCursor(sqlite3.Cursor):
    def execute(self, sql, *args):
        self.connection._seam(sql)
        return super().execute(sql, *args)

    def executemany(self, sql, *args):
        self.connection._seam(sql)
        return super().executemany(sql, *args)


class SimConnection(sqlite3.Connection):
    _sim_node = None
    _sim_timeout = 5.0

    def _seam(self, sql):
        sim = core.SIM
        node = self._sim_node
        if sim is None or node is None or sim.cur.quiet:
            return
        s = sql.lstrip()[:12].upper()
        kind = "db.write" if s.startswith(("INSERT", "UPDATE", "DELETE", "BEGIN", "CREATE")) else "db.read"
        sim.point(kind)
        node.disk_fault(kind, "")

    def cursor(self, factory=SimCursor):
        return super().cursor(factory)

    def execute(self, sql, *args):
        self._seam(sql)
        if core.SIM is not None and sql.lower().startswith("begin"):
            return self._begin(sql, *args)
        return super().execute(sql, *args)

    def _begin(self, sql, *args):
        # the busy handler of sqlite in simulated time
        sim = core.SIM
        end = sim.now + self._sim_timeout
        delay = 0.001
        while True:
            try:
                return super().execute(sql, *args)
            except sqlite3.OperationalError as e:
                if "locked" not in str(e) or sim.now >= end:
                    raise
                sim.count("db:busy")
                sim.sleep(delay)
                delay = min(delay * 2, 0.1)

    def commit(self):
        sim = core.SIM
        node = self._sim_node
        if sim is None or node is None or sim.cur.quiet:
            return super().commit()
        intx = self.in_transaction
        sim.point("db.commit")
        if intx:
            node.disk_fault("db.commit", "")
        rv = super().commit()
        if intx:
            node.committed()
            sim.point("db.after-commit")
        return rv

    def rollback(self):
        sim = core.SIM
        if sim is not None and self._sim_node is not None and not sim.cur.quiet:
            sim.point("db.rollback")
        return super().rollback()

    def close(self):
        sim = core.SIM
        if sim is not None and self._sim_node is not None and not sim.cur.quiet:
            if self.in_transaction:
                self._sim_node.tx_dropped()
            sim.point("db.close")
        return super().close()


def sim_sqlite_connect(database, timeout=5.0, *args, **kw):
    sim = core.SIM
    if sim is None:
        return real["sqlite3.connect"](database, timeout, *args, **kw)
    kw.setdefault("factory", SimConnection)
    node = sim.cur.node
    if node is not None and not sim.cur.quiet:
        sim.point("db.open")
        node.disk_fault("db.open", "")
    conn = real["sqlite3.connect"](database, 0, *args, **kw)
    if isinstance(conn, SimConnection):
        conn._sim_node = node
        conn._sim_timeout = timeout
    return conn


# ---------------------------------------------------------------------------
# time


def sim_time():
    sim = core.SIM
    if sim is None:
        return core.real_time()
    return sim.wall(sim.cur.node)


def sim_time_ns():
    return int(sim_time() * 1e9)


def sim_monotonic():
    sim = core.SIM
    if sim is None:
        return core.real_monotonic()
    return sim.now + 1000.0


def sim_monotonic_ns():
    return int(sim_monotonic() * 1e9)


def sim_sleep(secs):
    sim = core.SIM
    if sim is None:
        return core.real_sleep(secs)
    if secs < 0:
        raise ValueError("sleep length must be non-negative")
    sim.sleep(secs)


def sim_get_ident():
    sim = core.SIM
    if sim is None:
        return core.real_get_ident()
    return sim.cur.ident


def sim_start_new_thread(function, args, kwargs={}):  # noqa: B006
    sim = core.SIM
    if sim is None:
        return core.real_start_new_thread(function, args, kwargs)
    owner = getattr(function, "__self__", None)
    name = getattr(owner, "_name", None) or getattr(function, "__name__", "thread")
    # the names of anonymous threads contain process global counters
    node = sim.cur.node
    t = sim.spawn(lambda: function(*args, **kwargs), f"{node.name if node else '-'}:{name}", node)
    if isinstance(owner, threading.Thread):
        t.thread = owner
        owner._sim_task = t
    return t.ident


def _thread_is_alive(self):
    t = getattr(self, "_sim_task", None)
    if t is None:
        return real["Thread.is_alive"](self)
    return t.state not in (core.DONE, core.DEAD)


def _thread_join(self, timeout=None):
    t = getattr(self, "_sim_task", None)
    sim = core.SIM
    if t is None or sim is None:
        return real["Thread.join"](self, timeout)
    sim.join(t, timeout)
    return None


def sim_urandom(n):
    sim = core.SIM
    if sim is None:
        return real["urandom"](n)
    return sim.rand_rng.randbytes(n)


# ---------------------------------------------------------------------------
# asyncio


class SimSelector:
    def __init__(self):
        self.waiters = []
        self.flag = False

    def select(self, timeout=None):
        sim = core.SIM
        sim.point("loop")
        if not self.flag and (timeout is None or timeout > 0):
            sim.block(self.waiters, timeout)
        self.flag = False
        return []

    def wake(self):
        self.flag = True
        sim = core.SIM
        if sim is not None:
            sim.wake_all(self.waiters)

    def get_map(self):
        return {}

    def close(self):
        pass


class SimEventLoop(asyncio.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._selector = SimSelector()

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        self._selector.wake()


def sim_new_event_loop():
    if core.SIM is None:
        return real["new_event_loop"]()
    return SimEventLoop()


def sim_os_exit(code):
    sim = core.SIM
    if sim is None or sim.cur.node is None:
        real["os._exit"](code)
    sim.cur.node.exited(code)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    real["open"] = builtins.open
    builtins.open = sim_open
    io.open = sim_open
    for name, op, two in [
            ("replace", "rename", True), ("rename", "rename", True),
            ("remove", "remove", False), ("unlink", "remove", False),
            ("link", "link", True), ("mkdir", "mkdir", False)]:
        _wrap_fs(name, op, two)
    real["os._exit"] = os._exit
    os._exit = sim_os_exit
    real["sqlite3.connect"] = sqlite3.connect
    sqlite3.connect = sim_sqlite_connect
    sqlite3.dbapi2.connect = sim_sqlite_connect
    real["urandom"] = os.urandom
    os.urandom = sim_urandom
    random._urandom = sim_urandom
    # threads
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._start_new_thread = sim_start_new_thread
    threading.get_ident = sim_get_ident
    real["Thread.is_alive"] = threading.Thread.is_alive
    real["Thread.join"] = threading.Thread.join
    threading.Thread.is_alive = _thread_is_alive
    threading.Thread.join = _thread_join
    # time
    time.time = sim_time
    time.time_ns = sim_time_ns
    time.monotonic = sim_monotonic
    time.monotonic_ns = sim_monotonic_ns
    time.perf_counter = sim_monotonic
    time.sleep = sim_sleep
    threading._time = sim_monotonic
    queue.time = sim_monotonic
    queue.SimpleQueue = queue._PySimpleQueue
    for name in ("gmtime", "localtime"):
        def mk(orig):
            return lambda secs=None: orig(sim_time() if secs is None else secs)
        real[name] = getattr(time, name)
        setattr(time, name, mk(getattr(time, name)))
    real["strftime"] = time.strftime
    time.strftime = lambda fmt, t=None: real["strftime"](fmt, time.localtime() if t is None else t)
    real["new_event_loop"] = asyncio.new_event_loop
    asyncio.new_event_loop = sim_new_event_loop
    asyncio.events.new_event_loop = sim_new_event_loop
    import fcntl
    real["flock"] = fcntl.flock

    def sim_flock(fd, operation):
        sim = core.SIM
        if sim is None or sim.cur.quiet:
            return real["flock"](fd, operation)
        sim.point("flock")
        if operation & (fcntl.LOCK_NB | fcntl.LOCK_UN):
            return real["flock"](fd, operation)
        delay = 0.001
        while True:
            try:
                return real["flock"](fd, operation | fcntl.LOCK_NB)
            except BlockingIOError:
                sim.count("flock:busy")
                sim.sleep(delay)
                delay = min(delay * 2, 0.05)
    fcntl.flock = sim_flock
