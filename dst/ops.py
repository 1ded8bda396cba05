"""Executes one client operation over the simulated network and brings the
answer into the canonical form of the reference model."""
import hashlib
import json
import posixpath
import re
import xmlrpc.client
from html import unescape
from urllib.parse import urlencode, urljoin, urlsplit

from . import model
from .net import NetError, basic_auth, request

JSON = {"Accept": "application/json"}
HTML = {"Accept": "text/html", "User-Agent": "Mozilla/5.0"}
PIP = {"User-Agent": "pip/24.0", "Accept": "text/html"}
PIPJSON = {"User-Agent": "pip/24.0", "Accept": "application/vnd.pypi.simple.v1+json"}

READS = ("user_list", "user_get", "index_get", "project_get", "version_get",
         "simple", "simple_all", "file_get", "api_get", "doc_get", "search", "page_get")


def form(fields, files=()):
    """multipart/form-data"""
    b = "----simboundary7f3a"
    out = []
    for k, v in fields:
        for item in (v if isinstance(v, (list, tuple)) else [v]):
            out.append(
                f'--{b}\r\nContent-Disposition: form-data; name="{k}"\r\n\r\n{item}\r\n'.encode())
    for k, fn, data in files:
        out.append(
            f'--{b}\r\nContent-Disposition: form-data; name="{k}"; filename="{fn}"\r\n'
            f'Content-Type: application/octet-stream\r\n\r\n'.encode() + data + b"\r\n")
    out.append(f"--{b}--\r\n".encode())
    return b"".join(out), {"Content-Type": f"multipart/form-data; boundary={b}"}


def build(op):
    """-> method, path, headers, body"""
    k = op["op"]
    stage = op.get("stage")
    j = lambda d: json.dumps(d).encode()  # noqa: E731
    jh = dict(JSON, **{"Content-Type": "application/json"})
    force = "?force" if op.get("force") else ""
    if k == "user_create":
        d = dict(op.get("kw", {}))
        if op.get("password") is not None:
            d["password"] = op["password"]
        return "PUT", f"/{op['user']}", jh, j(d)
    if k == "user_modify":
        return "PATCH", f"/{op['user']}", jh, j(op.get("kw", {}))
    if k == "user_delete":
        return "DELETE", f"/{op['user']}", JSON, b""
    if k == "login":
        return "POST", "/+login", jh, j(dict(user=op["user"], password=op["password"]))
    if k == "index_create":
        return "PUT", f"/{stage}", jh, j(op.get("kw", {}))
    if k == "index_modify":
        return "PATCH", f"/{stage}", jh, j(op["patch"] if "patch" in op else op["kw"])
    if k == "index_delete":
        return "DELETE", f"/{stage}", JSON, b""
    if k == "register":
        fields = [(":action", "submit"), ("metadata_version", "2.1")]
        if op.get("invalid") != "noname":
            fields += [("name", op["name"])]
        if op.get("invalid"):
            fields += [("version", "")]
        else:
            fields += [("version", op["version"])]
        fields += list(op.get("kw", {}).items())
        body, h = form(fields)
        return "POST", f"/{stage}/", h, body
    if k == "upload":
        fields = [(":action", "file_upload"), ("metadata_version", "2.1"), ("name", op["name"]),
                  ("version", op["version"])] + list(op.get("kw", {}).items())
        body, h = form(fields, [("content", op["fn"], model.file_content(op["fn"], op["var"]))])
        return "POST", f"/{stage}/", h, body
    if k == "docs":
        fn = model.doc_name(model.normalize(op["name"]), op["version"])
        fields = [(":action", "doc_upload"), ("name", op["name"]),
                  ("version", op["version"])] + list(op.get("kw", {}).items())
        body, h = form(fields, [("content", op["name"] + ".zip", model.file_content(fn, op["var"]))])
        return "POST", f"/{stage}/", h, body
    if k == "tox":
        path = model.relpath(stage, op["fn"], model.sha(model.file_content(op["fn"], op["var"])))
        return "POST", "/" + path, jh, model.tox_data(op)
    if k == "del_file":
        path = model.relpath(stage, op["fn"], model.sha(model.file_content(op["fn"], op["var"])))
        return "DELETE", "/" + path + force, JSON, b""
    if k == "del_version":
        return "DELETE", f"/{stage}/{op['name']}/{op['version']}{force}", JSON, b""
    if k == "del_project":
        return "DELETE", f"/{stage}/{op['name']}{force}", JSON, b""
    if k == "push":
        d = dict(name=op["name"], version=op["version"], targetindex=op["target"])
        for o in ("no_docs", "only_docs"):
            if op.get(o):
                d[o] = True
        return op.get("method", "POST"), f"/{stage}", jh, j(d)
    if k == "user_list":
        return "GET", "/", JSON, b""
    if k == "api_get":
        return "GET", f"/{stage}/+api" if stage else "/+api", JSON, b""
    if k == "user_get":
        return "GET", f"/{op['user']}", JSON, b""
    if k == "index_get":
        return "GET", f"/{stage}", JSON, b""
    if k == "project_get":
        return "GET", f"/{stage}/{model.normalize(op['name'])}", JSON, b""
    if k == "version_get":
        return "GET", f"/{stage}/{model.normalize(op['name'])}/{op['version']}", JSON, b""
    if k == "simple":
        return "GET", f"/{stage}/+simple/{model.normalize(op['name'])}/", (
            PIPJSON if op.get("json") else PIP), b""
    if k == "simple_all":
        return "GET", f"/{stage}/+simple/", (PIPJSON if op.get("json") else PIP), b""
    if k == "file_get":
        path = model.relpath(stage, op["fn"], model.sha(model.file_content(op["fn"], op["var"])))
        return op.get("method", "GET"), "/" + path, {}, b""
    if k == "doc_get":
        h = dict(HTML)
        if "etag" in op:
            h["If-None-Match"] = '"%s"' % model.sha(model.file_content(
                model.doc_name(model.normalize(op["name"]), op["version"]), op["etag"]))
        return "GET", f"/{stage}/{model.normalize(op['name'])}/{op['version']}/{op.get('view', '+doc')}/{op['page']}", h, b""
    if k == "search":
        if stage:
            body = xmlrpc.client.dumps(({f: [v] for f, v in op["fields"].items()}, op.get("operator", "and")), "search")
            return "POST", f"/{stage}/", {"Content-Type": "text/xml", "Accept": "text/xml"}, body.encode()
        return "GET", "/+search?" + urlencode(dict(query=op["query"], page=op.get("page", 1))), HTML, b""
    if k == "page_get":
        return "GET", op["path"], HTML, b""
    raise ValueError(k)


def canon_version(d):
    links = []
    for x in d.get("+links", ()):
        base = posixpath.basename(urlsplit(x["href"]).path)
        spec = x.get("hash_spec", "")
        digest = spec[7:] if spec.startswith("sha256=") else spec
        links.append([
            x["rel"], "" if x["rel"] == "toxresult" else base, digest,
            posixpath.basename(urlsplit(x["for_href"]).path) if x.get("for_href") else ""])
    out = dict(
        meta={k: v for k, v in d.items() if not k.startswith("+") and v},
        links=sorted(links))
    if d.get("+shadowing"):
        # the same version on the bases
        out["shadowing"] = [canon_version(x) for x in d["+shadowing"]]
    return out


def canon_index(cfg):
    out = {}
    for k, v in cfg.items():
        if k == "projects":
            continue
        out[k] = sorted(v) if k.startswith("acl_") else v
    return out


def canon_user(u):
    return dict(
        {k: v for k, v in u.items() if k not in ("indexes", "created", "modified")},
        indexes={i: canon_index(c) for i, c in u.get("indexes", {}).items()})


_anchor = re.compile(rb'<a href="([^"]*)"([^>]*)>([^<]*)</a>')
_reqpy = re.compile(r'data-requires-python="([^"]*)"')


def parse_simple(body, pagepath, is_json):
    """basename -> [relpath, sha256, requires_python]; list of duplicates"""
    out = {}
    dups = []
    if is_json:
        d = json.loads(body)
        for f in d["files"]:
            path = urlsplit(urljoin(pagepath, f["url"])).path.lstrip("/")
            if f["filename"] in out:
                dups.append(f["filename"])
            out[f["filename"]] = [path, f["hashes"].get("sha256", str(f["hashes"])), f.get("requires-python") or None]
    else:
        for href, attrs, text in _anchor.findall(body):
            href = unescape(href.decode())
            u = urlsplit(urljoin(pagepath, href))
            frag = u.fragment
            m = _reqpy.search(attrs.decode())
            name = unescape(text.decode())
            if name in out:
                dups.append(name)
            out[name] = [u.path.lstrip("/"), frag[7:] if frag.startswith("sha256=") else frag,
                         (unescape(m.group(1)) or None) if m else None]
    return out, dups


def parse_simple_all(body, is_json):
    if is_json:
        return sorted(set(p["name"] for p in json.loads(body)["projects"]))
    return sorted(set(unescape(t.decode()) for h, a, t in _anchor.findall(body)))


_hit = re.compile(
    r'<dt class="packagename">\s*<a href="([^"]*)">\s*([^<]*?)\s*</a>.*?<span>([^<]*)</span>', re.S)


def parse_hits(op, body):
    """[[path, title]] or, for the XML-RPC interface, [[name, version, summary]]"""
    if op.get("stage"):
        try:
            (hits,), _ = xmlrpc.client.loads(body)
        except xmlrpc.client.Fault as e:
            if "HTTPNotFound" in e.faultString:
                return "missing index"
            raise ValueError(f"fault: {e.faultString}")
        return sorted([h["name"], h["version"], h["summary"]] for h in hits)
    return sorted([unescape(p), unescape(t)] for h, t, p in _hit.findall(body.decode()))


def canon(op, resp):
    """canonical value of a successful answer."""
    k = op["op"]
    if k == "user_list":
        return {n: canon_user(u) for n, u in resp.json["result"].items()}
    if k in ("user_get", "user_create"):
        r = canon_user(resp.json["result"])
        if k == "user_create":
            r.pop("indexes", None)
        return r
    if k == "api_get":
        return resp.json["result"]["authstatus"]
    if k == "index_get":
        r = resp.json["result"]
        return dict(config=canon_index(r), projects=sorted(r["projects"]))
    if k in ("index_create", "index_modify"):
        return canon_index(resp.json["result"])
    if k == "project_get":
        return {v: canon_version(d) for v, d in resp.json["result"].items()}
    if k == "version_get":
        return canon_version(resp.json["result"])
    if k == "simple":
        out, dups = parse_simple(
            resp.body, f"/{op['stage']}/+simple/{model.normalize(op['name'])}/", op.get("json"))
        return out
    if k == "simple_all":
        return parse_simple_all(resp.body, op.get("json"))
    if k == "search":
        return parse_hits(op, resp.body)
    if k in ("file_get", "doc_get"):
        if op.get("method") == "HEAD" or op.get("view", "+doc") != "+doc":
            return None
        return hashlib.sha256(resp.body).hexdigest()
    return None


def want(op, expect):
    """bring the model's expectation into the same form."""
    k = op["op"]
    if k in ("index_create", "index_modify"):
        return model.view_index(expect)
    if k == "simple":
        return {n: [p, d, r] for n, (p, d, r) in expect.items()}
    if (k == "file_get" and op.get("method") == "HEAD") or op.get("view", "+doc") != "+doc":
        return None
    return expect


def auth_headers(client, op):
    who = op.get("as", client.user)
    if who is None:
        return {}, None
    if op.get("token"):
        tok = client.tokens.get(who)
        if tok is not None:
            return {"X-Devpi-Auth": basic_auth(who, tok["token"])[6:]}, ("token", who, tok)
    pw = op.get("pw")
    if pw is None:
        pw = client.passwords.get(who, "nopw")
    return {"Authorization": basic_auth(who, pw)}, ("password", who, pw)


def execute(world, client, op, node=None):
    """run op, returns the history record."""
    sim = world.sim
    node = node or world.nodes[op.get("node", client.node)]
    method, path, headers, body = build(op)
    headers = dict(headers)
    ah, cred = auth_headers(client, op)
    headers.update(ah)
    rec = dict(op=op, client=client.name, node=node.name, t0=sim.now, cred=cred, skew=[0.0, 0.0],
               id=len(world.history), lo=world.primary.committed_serial,
               lo_node=node.committed_serial)
    world.history.append(rec)
    task = sim.cur
    old, task.op = task.op, rec
    try:
        resp = request(sim.net, client.host, method, f"http://{node.netloc}{path}",
                       headers, body, timeout=op.get("timeout", 120.0))
    except NetError as e:
        rec["error"] = e.kind
        rec["t1"] = sim.now
        rec["skew"] = skews((node, world.primary), rec["t0"], sim.now)
        sim.note("op", rec["id"], op["op"], "neterror", e.kind)
        return rec
    finally:
        task.op = old
    rec["skew"] = skews((node, world.primary), rec["t0"], sim.now)
    rec["t1"] = sim.now
    rec["status"] = resp.status
    rec["hi"] = world.primary.committed_serial
    rec["hi_node"] = node.committed_serial
    s = resp.headers.get("x-devpi-serial")
    rec["serial"] = int(s) if s is not None else None
    rec["body"] = resp.body
    rec["headers"] = resp.headers
    try:
        if resp.status in (200, 201):
            rec["value"] = canon(op, resp)
        if op["op"] == "login" and resp.status == 200:
            client.tokens[op["user"]] = dict(
                token=resp.json["result"]["password"], issued=(rec["t0"], rec["t1"]),
                wall=wall_range(rec))
        if op["op"] == "user_modify" and resp.status == 200 and "password" in op.get("kw", {}):
            r = resp.json.get("result")
            if r and "password" in r:
                client.tokens[op["user"]] = dict(
                    token=r["password"], issued=(rec["t0"], rec["t1"]),
                    wall=wall_range(rec))
    except (ValueError, KeyError, TypeError) as e:
        rec["unparsable"] = f"{type(e).__name__}: {e}"
    sim.note("op", rec["id"], op["op"], resp.status, rec["serial"],
             hashlib.sha256(resp.body).hexdigest()[:12]
             # tokens, and the real modification time of .event_serial
             if op["op"] not in ("login", "user_modify") and "+status" not in op.get("path", "") else "")
    return rec


def skews(nodes, t0, t1):
    """lowest and highest error of the nodes' clocks between t0 and t1."""
    seen = []
    for node in nodes:
        last = 0.0
        for t, skew in node.skew_log:
            if t <= t0:
                last = skew
            elif t <= t1:
                seen.append(skew)
        seen.append(last)
    return [min(seen), max(seen)]


def wall_range(rec):
    """the node's clock showed times in this range during the request."""
    from .core import EPOCH
    return (EPOCH + rec["t0"] + rec["skew"][0], EPOCH + rec["t1"] + rec["skew"][1])
