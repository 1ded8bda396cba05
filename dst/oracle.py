"""Checks over the recorded history of one run."""
import hashlib
import os

from . import core, model, ops

TOKEN_LIFE = 60 * 60 * 10


class Linearized:
    """the sequential history given by the commit order of the primary."""

    def __init__(self, base_serial, base_state):
        self.base = base_serial
        self.states = {base_serial: base_state}
        self.last = base_serial

    def at(self, serial):
        return self.states[max(self.base, min(serial, self.last))]


def identify(state, rec):
    """set of possible authenticated users for rec's credentials."""
    cred = rec["cred"]
    if cred is None:
        return (None,)
    kind, user, what = cred
    u = state.users.get(user)
    if kind == "password":
        return (user,) if u is not None and u["password"] == what else (None,)
    if u is None:
        return (None,)
    lo = rec["wall0"] - what["wall"][1]
    hi = rec["wall1"] - what["wall"][0] + 1
    if hi < TOKEN_LIFE - 1 and lo > -0.5:
        return (user,)
    if lo > TOKEN_LIFE + 1:
        return (None,)
    return (user, None)


def outcomes(state, rec):
    return [model.apply(state, rec["op"], who) for who in identify(state, rec)]


def short(v, n=700):
    s = repr(v)
    return s if len(s) < n else s[:n] + "…"


def diff(a, b, path=""):
    """first difference of two JSON-like values."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return f"{path}/{k}: unexpectedly missing, want {short(b[k], 200)}"
            if k not in b:
                return f"{path}/{k}: unexpected {short(a[k], 200)}"
            if a[k] != b[k]:
                return diff(a[k], b[k], f"{path}/{k}")
    return f"{path}: got {short(a, 300)} want {short(b, 300)}"


def describe(rec):
    return (f"op {rec['id']} {short(rec['op'], 300)} by {rec['client']} via {rec['node']} "
            f"-> {rec.get('status', rec.get('error'))} serial {rec.get('serial')} "
            f"commits {rec.get('commits')} t={rec['t0']:.3f}")


def matches(world, rec, out, value=True):
    """does the recorded answer fit the outcome?"""
    if rec["status"] not in out.status:
        return f"status {rec['status']} instead of {out.status}"
    if value and rec["status"] in (200, 201) and "unparsable" in rec:
        return f"unparsable answer {rec['unparsable']}"
    if value and out.expect is not None and out.expect != "maybe" and rec["status"] in (200, 201):
        want = ops.want(rec["op"], out.expect)
        got = rec.get("value")
        if want != got:
            return "value differs: " + diff(got, want)
    return None


def is_write(rec):
    return rec["op"]["op"] not in ops.READS and rec["op"]["op"] != "login"


CLASS_BY_OP = {
    "push": "push", "index_modify": "api", "login": "auth"}


def linearize(world, base_serial, base_state, allow_5xx=False, background=None):
    """replay the commits in serial order against the model.

    background(serial, changes) -> error or None judges commits which were
    not made by a client operation."""
    prim = world.primary
    by_serial = {}
    for rec in world.history:
        rec.setdefault("t1", world.sim.now)
        rec["wall0"], rec["wall1"] = ops.wall_range(rec)
        own = [s for (n, s) in rec.get("commits", ()) if n == prim.name]
        if len(own) > 1:
            world.violation("split-tx", f"one request committed several serials {own}: {describe(rec)}")
        for s in own:
            by_serial[s] = rec
    last = prim.last_serial()
    log = prim.changelog(base_serial + 1)
    lin = Linearized(base_serial, base_state)
    state = base_state
    for serial in range(base_serial + 1, last + 1):
        rec = by_serial.get(serial)
        if serial not in log:
            world.violation("serial-gap", f"changelog has no entry for serial {serial} (last {last})")
            lin.states[serial] = state
            lin.last = serial
            continue
        if rec is None:
            err = background(serial, log[serial]) if background else "no request made this commit"
            if err:
                world.violation("phantom-commit", f"serial {serial}: {err}: {short(log[serial][0])}")
        else:
            outs = outcomes(state, rec)
            status = rec.get("status")
            best = None
            err = None
            for out in outs:
                if status is not None and status < 500:
                    e = matches(world, rec, out)
                    if e is not None:
                        err = e
                        continue
                best = out
                break
            if best is None:
                cls = classify(rec, outs)
                world.violation(cls, f"{err} at committed serial {serial}: {describe(rec)}")
                best = outs[0]
            elif status is not None and status >= 500 and is_write(rec) and rec["node"] == prim.name:
                world.violation(
                    "failed-left-trace",
                    f"answered {status} but committed serial {serial}: {describe(rec)}")
            if best.state is None:
                if status is not None and status >= 400 or (
                        status is None and best.status[0] >= 400):
                    changes = real_changes(prim, serial, log)
                    if changes:
                        world.violation(
                            "failed-left-trace",
                            f"rejected request changed {changes} at serial {serial}: {describe(rec)}")
            else:
                state = best.state
        lin.states[serial] = state
        lin.last = serial
    for s in by_serial:
        if s > last:
            world.violation("acked-lost", f"commit {s} is gone, last is {last}: {describe(by_serial[s])}")
    return lin


def classify(rec, outs):
    st = rec.get("status")
    want = outs[0].status
    if (st in (401, 403)) != (want[0] in (401, 403)):
        return "permission"
    if rec["op"]["op"] == "push":
        return "push"
    return "api"


def real_changes(node, serial, log):
    """keys whose value really differs from the value before."""
    out = []
    changes = log[serial][0]
    full = None
    for relpath, (keyname, back, val) in changes.items():
        if back < 0:
            old = None
        else:
            if back not in log:
                full = full or node.changelog()
                entry = full.get(back)
            else:
                entry = log[back]
            old = entry[0][relpath][2] if entry and relpath in entry[0] else None
        if old != val:
            out.append(relpath)
    return out


def garbled(world, rec):
    """was the file changed on its way to the replica, which passes it on before it knows?"""
    op = rec["op"]
    path = "/" + model.relpath(op["stage"], op["fn"], model.sha(model.file_content(op["fn"], op["var"])))
    return any(n == rec["node"] and p == path and rec["t0"] <= t <= rec["t1"]
               for n, p, t in world.sim.net.garbled)


def check_responses(world, lin, allow_5xx=False, replica_lag=True):
    """every answer must fit the state its serial names."""
    prim = world.primary
    proxied = {}    # replica -> highest serial answered through it
    for rec in sorted((r for r in world.history if "status" in r), key=lambda r: (r["t1"], r["id"])):
        rec["order"] = True
    ended = sorted((r for r in world.history if "status" in r), key=lambda r: r["t1"])
    for rec in world.history:
        status = rec.get("status")
        if status is None or rec.get("nocheck"):
            continue
        world.note_check("responses")
        own = [s for (n, s) in rec.get("commits", ()) if n == prim.name]
        if own:
            # already compared by linearize(), the serial must be right
            if rec["serial"] is not None and rec["serial"] != own[-1] and status < 500 and rec["node"] == prim.name:
                world.violation(
                    "wrong-serial", f"serial header {rec['serial']} but committed {own}: {describe(rec)}")
            if own[0] <= rec["lo"]:
                world.violation("order", f"commit not after invocation {rec['lo']}: {describe(rec)}")
            continue
        if status >= 500:
            if not allow_5xx:
                world.violation(
                    "server-error", f"{describe(rec)} {short(rec['body'], 200)} {prim.app_errors[-1:]}")
            continue
        if status == 400 and rec.get("ambiguous"):
            continue
        via_replica = rec["node"] != prim.name
        op = rec["op"]
        if via_replica and op["op"] == "file_get" and garbled(world, rec):
            continue
        replaced = op["op"] == "doc_get" and docs_replaced(world, rec)
        if replaced and status == 404:
            continue
        if op["op"] == "search" and allow_5xx and "fault: OSError" in rec.get("unparsable", ""):
            continue    # the answer to a failed XML-RPC request is a 200
        lo = rec["lo"]
        hi = rec["hi"]
        if via_replica and not is_write(rec):
            lo = rec["lo_node"]
            for o in ended:
                if o["t1"] > rec["t0"]:
                    break
                if o["node"] == rec["node"] and is_write(o) and o["status"] < 300:
                    s = [x for (n, x) in o.get("commits", ()) if n == prim.name]
                    if s:
                        lo = max(lo, s[-1])
        serial = rec["serial"]
        if serial is not None:
            if serial < lo:
                world.violation(
                    "stale-read" if not via_replica else "replica-stale",
                    f"serial {serial} below {lo} which was known at invocation: {describe(rec)}")
            if op["op"] in ("file_get", "doc_get"):
                window = range(min(serial, hi), hi + 1)
            else:
                window = (serial,)
        else:
            window = range(max(lin.base, lo), hi + 1)
        errs = []
        ok = False
        for s in window:
            if s < lin.base:
                ok = True
                break
            if s > lin.last:
                continue
            outs = outcomes(lin.at(s), rec)
            if replaced and op["version"] in ("latest", "stable"):
                # a version whose documentation is just being replaced is skipped
                outs = [*outs, *(
                    model.op_doc_get(lin.at(s), dict(op, version=v), None)
                    for v in lin.at(s).versions(op["stage"], model.normalize(op["name"])))]
            for out in outs:
                e = matches(world, rec, out)
                if e is None:
                    if is_write(rec) and out.state is not None and out.expect != "maybe" and status < 300:
                        e = f"success but nothing was committed (serial {s})"
                    else:
                        ok = True
                        break
                errs.append((s, e, out))
            if ok:
                break
        if not ok:
            if not errs:
                errs.append((serial, f"serial {serial} unknown", None))
            s, e, out = errs[-1]
            if "nothing was committed" in e:
                cls = "not-committed"
            elif out is not None and is_write(rec):
                cls = classify(rec, [out])
            elif out is not None and (status in (401, 403)) != (out.status[0] in (401, 403)):
                cls = "permission"
            else:
                cls = "read-mismatch" if not via_replica else "replica-mismatch"
            world.violation(cls, f"{e} at serial {s}: {describe(rec)}")


def docs_replaced(world, rec):
    """the unpacked documentation of the project may be in the process of being
    replaced or removed (which happens some time after the upload)"""
    stage = rec["op"]["stage"]
    for o in world.history:
        op = o["op"]
        if is_write(o) and op["op"] in DOC_WRITES and stage in (op.get("stage"), op.get("target")):
            if o["t0"] <= rec["t1"] and o.get("t1", rec["t1"]) > rec["t0"] - 120:
                return True
    return False


DOC_WRITES = ("docs", "push", "del_file", "del_version", "del_project", "index_delete", "upload")


def check_changelog(world, node, old=None):
    """gap free; entries seen before are unchanged. Returns raw entries."""
    raw = node.raw_changelog()
    world.note_check("changelog")
    if sorted(raw) != list(range(len(raw))):
        missing = sorted(set(range(max(raw) + 1)) - set(raw))[:5] if raw else []
        world.violation("serial-gap", f"{node.name} changelog not contiguous, missing {missing}")
    if old:
        for s, data in old.items():
            if s not in raw:
                world.violation("acked-lost", f"{node.name}: serial {s} disappeared")
                break
            if bytes(raw[s]) != bytes(data):
                world.violation("history-rewritten", f"{node.name}: entry of serial {s} changed")
                break
    return raw


def check_kv(world, node):
    """the key index points to the newest serial of every key."""
    with core.quiet():
        conn = node.db()
        try:
            kv = {k: (n, s) for k, n, s in conn.execute("select key, keyname, serial from kv")}
        finally:
            conn.close()
    state = node.state_at()
    want = {k: (n, s) for k, (n, s, v) in state.items()}
    world.note_check("kv-index")
    if kv != want:
        world.violation("kv-index", f"{node.name}: key index differs from the changelog: " + diff(kv, want))
    log = node.changelog()
    newest = {}
    for s in sorted(log):
        for relpath, (keyname, back, val) in log[s][0].items():
            if back != newest.get(relpath, -1):
                world.violation(
                    "back-serial", f"{node.name}: {relpath}@{s} back serial {back} "
                    f"instead of {newest.get(relpath, -1)}")
            newest[relpath] = s


def file_entries(state):
    """relpath -> value of all stored (not deleted) files."""
    return {k: v for k, (n, s, v) in state.items()
            if n in ("STAGEFILE", "PYPIFILE_NOMD5") and v}


def spec_of(value):
    h = value.get("hash_spec") or ""
    hashes = value.get("hashes") or {}
    if "sha256" in hashes:
        return "sha256", hashes["sha256"]
    if "=" in h:
        return tuple(h.split("=", 1))
    return None, None


def check_disk_files(world, node, state=None, stages=None, missing_ok=(), orphans=False, known=None):
    """every private file entry has its content on disk with the right hash."""
    state = state or node.state_at()
    entries = file_entries(state)
    known_paths = {p.split("/+files/", 1)[-1].lstrip("/") for p in node.lost}
    for relpath, value in sorted(entries.items()):
        stage = "/".join(relpath.split("/")[:2])
        if stages is not None and stage not in stages:
            continue
        if value.get("last_modified") is None:
            continue    # never cached so far
        world.note_check("file-content")
        content = node.file_content(relpath)
        if content is None:
            if relpath in missing_ok:
                continue
            world.violation(
                "file-lost", f"{node.name}: no content for {relpath}",
                known=known if relpath in known_paths else None)
            continue
        algo, digest = spec_of(value)
        if algo and hashlib.new(algo, content).hexdigest() != digest:
            world.violation("file-corrupt", f"{node.name}: {relpath} content ({len(content)} bytes) does not match {algo}")
    if orphans:
        extra = [rel for rel in disk_files(node) if rel not in entries]
        if extra:
            world.violation("orphan-file", f"{node.name}: content of deleted files still there: {sorted(extra)[:5]}")


def disk_files(node):
    base = node.path("+files")
    result = []
    with core.quiet():
        for dirpath, dirs, files in os.walk(base):
            for f in files:
                result.append(os.path.relpath(os.path.join(dirpath, f), base))
    return sorted(result)


def dump_ops(state, probes=()):
    """read operations which cover the complete state."""
    out = [dict(op="user_list")]
    for stage in state.stages():
        cfg = state.config(stage)
        if cfg["type"] == "mirror":
            continue
        out.append(dict(op="index_get", stage=stage))
        out.append(dict(op="simple_all", stage=stage, json=False))
        for project in sorted(state.projects.get(stage, {})):
            out.append(dict(op="project_get", stage=stage, name=project))
            out.append(dict(op="simple", stage=stage, name=project))
            out.append(dict(op="simple", stage=stage, name=project, json=True))
            for version, d in sorted(state.versions(stage, project).items()):
                out.append(dict(op="version_get", stage=stage, name=project, version=version))
    return out + list(probes)


def dump_check(world, node, state, cls="final-state", probes=(), min_serial=None):
    """read the complete state through the API of node."""
    cl = world.harness
    for op in dump_ops(state, probes):
        rec = ops.execute(world, cl, op, node=node)
        rec["nocheck"] = True
        world.note_check("dump")
        if "status" not in rec:
            world.violation(cls, f"{node.name}: no answer: {describe(rec)}")
            continue
        out = model.apply(state, op, None)
        e = matches(world, rec, out)
        if e is not None:
            world.violation(cls, f"{node.name}: {e}: {describe(rec)} {short(rec['body'], 160) if rec['status'] >= 500 else ''}")
        if op["op"] == "user_list" and min_serial is not None:
            if rec["serial"] is None or rec["serial"] < min_serial:
                world.violation(cls, f"{node.name} answers at serial {rec['serial']} < {min_serial}")
    # all files via HTTP
    from .net import NetError, request
    for path, digest in sorted(state.files().items()):
        try:
            r = request(world.sim.net, cl.host, "GET", f"http://{node.netloc}/{path}", {}, timeout=120)
        except NetError as e:
            world.violation("file-unservable", f"{node.name}: {path}: {e}")
            continue
        world.note_check("dump-file")
        if r.status != 200:
            world.violation("file-unservable", f"{node.name}: {path}: status {r.status} {r.body[:200]!r}",
                            known=("files-removed-before-commit"
                                   if path in {p.split('/+files/', 1)[-1].lstrip('/') for p in node.lost}
                                   else None))
        elif hashlib.sha256(r.body).hexdigest() != digest:
            world.violation("wrong-bytes", f"{node.name}: {path}: {len(r.body)} wrong bytes")


def quick_files(world, node):
    return check_disk_files(world, node)
