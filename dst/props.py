"""What each property's check runs and which violations it reports."""

THOROUGH = 90       # thorough runs this many times the seeds of quick

REAL = [
    "devpi-server: complete WSGI application (pyramid views, auth, model, keyfs, sqlite storage, "
    "file storage, event queue, replication, mirror, import/export) via its own main()",
    "devpi-web (only properties W01, W02): views, whoosh search index, documentation unpacking; whoosh itself",
    "sqlite3 (real library and database files)",
    "file system (real files, in a scratch directory per run)",
]
STUBS = [
    "threads, locks, conditions, queues, events, sleeps: one runs at a time, the simulator's seeded "
    "scheduler picks which",
    "clocks (time.time, monotonic, perf_counter, localtime/datetime): simulated",
    "randomness (os.urandom, random, secrets, uuid): seeded",
    "sockets: waitress is replaced by a simulated HTTP delivery with latency and faults; "
    "requests and aiohttp clients run on a simulated transport",
    "process exit and kill: simulated node life cycle, the directory as of the crash survives",
]
ASSUMPTIONS = [
    "a crash is the death of the process (kill -9, OOM kill): data handed to the operating system survives; "
    "power loss with lost unsynced writes is not simulated",
    "the scheduler switches tasks at synchronisation, storage, network, sleep and instrumented points, not "
    "between arbitrary byte codes",
    "requests are delivered as complete HTTP messages; waitress' own parsing is not part of the simulation",
    "argon2 cost parameters are lowered",
]

# groups of violation classes
DATA = {"acked-lost", "file-lost", "file-corrupt", "file-unservable", "wrong-bytes", "final-state",
        "restart-state", "restart-failed", "serial-gap", "history-rewritten", "kv-index", "back-serial",
        "split-tx"}
API = {"api", "push", "permission", "read-mismatch", "not-committed", "final-state", "restart-state",
       "server-error", "failed-left-trace", "phantom-commit", "wrong-bytes", "file-unservable",
       "file-lost", "stale-read", "order", "wrong-serial", "orphan-file"}
LIVE = {"hang", "client-stuck", "shutdown-hang", "restart-failed"}
ALL_STORE = DATA | API | LIVE
REPL = ALL_STORE | {"no-convergence", "replica-diverged", "replica-file-missing", "replica-file-extra",
                    "replica-state", "replica-stale", "replica-mismatch", "search-path"}
MIRR = DATA | LIVE | {"slow-response", "server-error", "broken-response", "mirror-page", "mirror-error", "mirror-unavailable", "mirror-leak",
                      "mirror-private", "mirror-links", "mirror-regress", "mirror-stale", "mirror-list",
                      "mirror-not-recovered", "mirror-file-unservable", "no-convergence", "replica-diverged",
                      "mirrors-error", "mirror-order", "mirror-missing", "mirror-corrupt"}

EVENT = DATA | LIVE | {"event-wrong", "event-order", "event-lost", "event-without-file", "events-stuck"}

DUMP = DATA | API | LIVE | {"export-failed", "import-failed", "import-differs", "fsck-false-alarm", "fsck-missed"}

WEB = ALL_STORE | {"search-stale", "search-error", "docs-wrong", "docs-escape"}


def part(scenario, profile, weight=1, **kw):
    return dict(scenario=scenario, profile=profile, weight=weight, kw=kw)


PROPS = {
    "S01": dict(runs=162, parts=[part("store", "crash", 3), part("store", "bulk", 2), part("store", "files"), part("store", "disk")],
                classes=ALL_STORE),
    "S02": dict(runs=135, parts=[part("store", "mixed", 2), part("store", "files"), part("store", "hot", 2)],
                classes=ALL_STORE),
    "S03": dict(runs=135, parts=[part("store", "mixed", 2), part("store", "hot", 2), part("store", "crash")],
                classes=ALL_STORE),
    "S04": dict(runs=162, parts=[part("store", "disk", 3), part("store", "bulk", 1), part("store", "reject", 2)],
                classes=ALL_STORE),
    "S05": dict(runs=162, parts=[part("store", "files", 3), part("store", "crash"), part("store", "disk")],
                classes=ALL_STORE),
    "S06": dict(runs=162, parts=[part("events", "primary", 2), part("events", "replica")], classes=EVENT),
    "A01": dict(runs=135, parts=[part("store", "auth", 3), part("store", "pwrace", 2), part("store", "mixed")],
                classes=ALL_STORE),
    "A02": dict(runs=135, parts=[part("store", "nonvolatile", 3), part("store", "mixed")],
                classes=ALL_STORE),
    "A03": dict(runs=135, parts=[part("store", "delete", 3), part("store", "bulk"), part("store", "files")],
                classes=ALL_STORE),
    "A05": dict(runs=135, parts=[part("store", "push", 3), part("store", "mixed")],
                classes=ALL_STORE),
    "A06": dict(runs=135, parts=[part("store", "inherit", 3), part("store", "mixed"), part("mirror", "whitelist"),
                                     part("mirrors", "order", 2)],
                classes=ALL_STORE | MIRR),
    "A07": dict(runs=108, parts=[part("extpush", "mixed")], classes=ALL_STORE | {"extpush-content", "extpush-status"}),
    "M01": dict(runs=108, parts=[part("mirror", "mixed", 3), part("mirror", "crash", 2)], classes=MIRR),
    "M02": dict(runs=135, parts=[part("mirror", "disk", 3), part("mirror", "calm"), part("mirror", "mixed"), part("mirror", "race")], classes=MIRR),
    "M03": dict(runs=108, parts=[part("mirror", "files", 4), part("mirror", "crash")], classes=MIRR),
    "M04": dict(runs=135, parts=[part("mirror", "race", 3), part("mirror", "mixed")], classes=MIRR),
    "M05": dict(runs=112, parts=[part("mirror", "mixed", 4), part("mirror", "race", 4), part("mirror", "biglist", 1)], classes=MIRR),
    "M06": dict(runs=108, parts=[part("mirror", "whitelist", 4), part("mirror", "mixed"), part("mirrors", "order", 2)], classes=MIRR),
    "M07": dict(runs=58, parts=[part("mirror", "replica", 3), part("mirror", "biglist", 1)], classes=MIRR),
    "R01": dict(runs=72, parts=[part("repl", "mixed", 2), part("repl", "crash", 2)], classes=REPL),
    "R02": dict(runs=72, parts=[part("repl", "files", 2), part("repl", "mixed"), part("repl", "crash")],
                classes=REPL),
    "R03": dict(runs=72, parts=[part("repl", "files", 2), part("repl", "mixed")], classes=REPL),
    "R04": dict(runs=99, parts=[part("repl", "ryw", 2), part("repl", "calm")], classes=REPL),
    "X01": dict(runs=108, parts=[part("dump", "export")], classes=DUMP),
    "X02": dict(runs=90, parts=[part("dump", "fsck")], classes=DUMP),
    "W01": dict(runs=90, parts=[part("web", "search", 3), part("web", "docs")], classes=WEB),
    "W02": dict(runs=108, parts=[part("web", "docrace", 2), part("web", "docs", 2), part("web", "evil")], classes=WEB),
}
