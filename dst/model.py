"""Sequential reference model of what users store on a devpi-server.

``apply(state, op, ident)`` gives the outcome of one client operation executed
alone on ``state``: ``(statuses, new_state or None, expectation)``.  A state
is treated as immutable: changing operations work on a (partial) copy.
"""
import copy
import hashlib
import posixpath
import re

LIST_FIELDS = (
    'platform', 'classifiers', 'obsoletes', 'requires', 'provides',
    'obsoletes_dist', 'provides_dist', 'requires_dist', 'requires_external',
    'project_urls', 'supported_platform')

BLOCKED = set(' !"#$%&\'()*+,/:;<=>?[\\]^`{|}~')


def normalize(name):
    return re.sub(r"[-_.]+", "-", name).lower()


_contents = {}


def file_content(fn, var):
    """deterministic content of variant ``var`` of a file."""
    key = (fn, var)
    c = _contents.get(key)
    if c is None:
        if fn.endswith(".doc.zip"):
            c = doczip(fn, var)
        elif isinstance(var, int) and var < 0:
            c = b""
        else:
            n = 40 + 400 * (int(hashlib.md5(repr(key).encode()).hexdigest(), 16) % 5)
            c = (f"{fn}|{var}|".encode() * (n // 8 + 1))[:n * 3 + 17]
        _contents[key] = c
    return c


def doczip(fn, var):
    import io
    import zipfile
    f = io.BytesIO()
    z = zipfile.ZipFile(f, "w", zipfile.ZIP_STORED)
    for name, data in doc_pages(fn, var).items():
        info = zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0))
        z.writestr(info, data)
    if var == 2:
        for name in ("../../../../../evil-up.txt", "../evil-side.html", "a/../../../evil-mixed.html", "+doc/../../evil.html"):
            z.writestr(zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0)), b"evil")
    z.close()
    return f.getvalue()


def doc_pages(fn, var):
    # names depend on the variant to be able to detect mixed unpacking
    names = ["index.html", "common.txt"] + [f"page{var}_{i}.html" for i in range(3)]
    return {name: f"<html><body>{fn} variant{var} {name} word{var}q</body></html>".encode() for name in names}


def sha(data):
    return hashlib.sha256(data).hexdigest()


def relpath(stage, basename, digest):
    return f"{stage}/+f/{digest[:3]}/{digest[3:16]}/{basename}"


def stage_defaults(user):
    return dict(
        type="stage", volatile=True, acl_upload=[user],
        acl_toxresult_upload=[":ANONYMOUS:"], bases=[], mirror_whitelist=[],
        mirror_whitelist_inheritance="intersection")


def initial(root_pypi=False, root_password="rootpw"):
    return State(users={"root": dict(password=root_password, props={}, indexes={})}, projects={})


class State:
    """users: name -> {password, props, indexes: {name: config}}
    projects: "user/index" -> {project: {version: {"meta":…, "links": […]}}}
    """
    __slots__ = ("users", "projects")

    def __init__(self, users, projects):
        self.users = users
        self.projects = projects

    def copy(self):
        return State(dict(self.users), dict(self.projects))

    def user_w(self, name):
        u = self.users[name] = copy.deepcopy(self.users[name])
        return u

    def stage_w(self, stage):
        p = self.projects[stage] = copy.deepcopy(self.projects.get(stage, {}))
        return p

    def config(self, stage):
        u, i = stage.split("/")
        user = self.users.get(u)
        if user is None:
            return None
        return user["indexes"].get(i)

    def stages(self):
        for u in sorted(self.users):
            for i in sorted(self.users[u]["indexes"]):
                yield f"{u}/{i}"

    def sro(self, stage):
        todo = [stage]
        seen = set()
        out = []
        mirrors = []
        while todo:
            s = todo.pop(0)
            if s in seen:
                continue
            out.append(s)
            seen.add(s)
            for b in self.config(s)["bases"]:
                if b in seen:
                    continue
                c = self.config(b)
                if c is None:
                    continue
                if c["type"] == "mirror":
                    mirrors.append(b)
                    seen.add(b)
                else:
                    todo.append(b)
        return out + mirrors

    def stage_sro(self, stage):
        out = []
        for s in self.sro(stage):
            if self.config(s)["type"] != "mirror" and s not in out:
                out.append(s)
        return out

    def versions(self, stage, project):
        return self.projects.get(stage, {}).get(project, {})

    def visible_versions(self, stage, project):
        """version -> (stage, data, shadowed data) with the nearest stage winning."""
        out = {}
        for s in self.stage_sro(stage):
            for v, d in self.versions(s, project).items():
                if v in out:
                    out[v][2].append(d)
                else:
                    out[v] = (s, d, [])
        return out

    def simple(self, stage, project):
        """basename -> (href relpath, sha256, requires_python)"""
        out = {}
        for s in self.stage_sro(stage):
            for v, d in self.versions(s, project).items():
                for link in d["links"]:
                    if link["rel"] == "releasefile" and link["basename"] not in out:
                        # the value may be the one of the last change
                        # of the files, or already the newest metadata
                        out[link["basename"]] = (
                            link["path"], link["sha"],
                            AnyOf(link.get("rp") or None, d["meta"].get("requires_python") or None))
        return out

    def has_project(self, stage, project):
        return any(project in self.projects.get(s, {}) for s in self.stage_sro(stage))

    def files(self):
        """relpath -> sha256 of all stored files."""
        out = {}
        for stage, projects in self.projects.items():
            for project, versions in projects.items():
                for version, d in versions.items():
                    for link in d["links"]:
                        if link["path"] is not None:
                            out[link["path"]] = link["sha"]
        return out

    def find_file(self, path):
        """(project, version, link) for a relpath."""
        stage = "/".join(path.split("/")[:2])
        for project, versions in self.projects.get(stage, {}).items():
            for version, d in versions.items():
                for link in d["links"]:
                    if link["path"] == path:
                        return project, version, link
        return None

    # -- permissions ---------------------------------------------------------

    def allowed(self, perm, who, stage):
        """who: user name or None (anonymous)"""
        cfg = self.config(stage)
        if cfg is None:
            return False
        owner = stage.split("/")[0]
        if perm == "pkg_read":
            return True
        if perm == "toxresult_upload":
            acl = set(cfg.get("acl_toxresult_upload", [":ANONYMOUS:"]))
        elif perm == "upload":
            acl = set(cfg.get("acl_upload", ()))
        elif perm in ("index_modify", "index_delete"):
            acl = {"root", owner}
        else:
            acl = set(cfg.get("acl_upload", ())) | {"root", owner}
        if ":ANONYMOUS:" in acl:
            return True
        if who is None:
            return False
        return who in acl or ":AUTHENTICATED:" in acl


def new_link(stage, rel, basename, content, for_basename=None, path=True):
    digest = sha(content)
    return dict(rel=rel, basename=basename, sha=digest,
                path=relpath(stage, basename, digest) if path else None,
                **({"for": for_basename} if for_basename else {}))


def full_meta(given):
    meta = {}
    for k in ("name", "version", "summary", "requires_python", "license", "keywords", "description", "home_page", "author"):
        meta[k] = given.get(k, "")
    for k in ("classifiers", "requires_dist"):
        meta[k] = list(given.get(k, []))
    return meta


def set_meta(projects, project, version, meta):
    v = projects.setdefault(project, {}).setdefault(version, {"meta": {}, "links": []})
    v["meta"].update(meta)
    return v


def regen(projects, project):
    """called whenever the files of a project change"""
    for v in projects.get(project, {}).values():
        for x in v["links"]:
            if x["rel"] == "releasefile":
                x["rp"] = v["meta"].get("requires_python")


class AnyOf:
    def __init__(self, *values):
        self.values = values

    def __eq__(self, other):
        return other in self.values

    def __ne__(self, other):
        return other not in self.values

    __hash__ = None

    def __repr__(self):
        return " or ".join(sorted({repr(v) for v in self.values}))


def remove_links(v, basename=None, rel=None):
    removed = [x for x in v["links"]
               if (basename is None or x["basename"] == basename)
               and (rel is None or x["rel"] == rel)]
    v["links"] = [x for x in v["links"] if x not in removed]
    gone = {x["basename"] for x in removed}
    v["links"] = [x for x in v["links"] if x.get("for") not in gone]
    return removed


def valid_bases(state, bases):
    for b in bases:
        if b.count("/") != 1 or state.config(b) is None:
            return False
    return True


class Outcome:
    """what the operation must answer and do"""
    __slots__ = ("status", "state", "expect")

    def __init__(self, status, state=None, expect=None):
        self.status = status if isinstance(status, tuple) else (status,)
        self.state = state
        self.expect = expect


def apply(state, op, who):
    """who is the authenticated user name or None."""
    return globals()["op_" + op["op"]](state, op, who)


def norm_acl(lst):
    return [x.upper() if x.upper() in (":ANONYMOUS:", ":AUTHENTICATED:") else x for x in lst]


# -- users -------------------------------------------------------------------

PROPS = ("email", "title", "description", "custom_data")


def op_user_create(state, op, who):
    name = op["user"]
    if name in state.users:
        return Outcome(409)
    kw = op.get("kw", {})
    if op.get("password") is None:
        return Outcome(400)
    if set(name) & BLOCKED:
        return Outcome(400)
    if set(kw) - set(PROPS):
        return Outcome(400)
    s = state.copy()
    s.users[name] = dict(
        password=op["password"], props={k: v for k, v in kw.items() if v}, indexes={})
    return Outcome(201, s, dict(username=name, **s.users[name]["props"]))


def op_user_modify(state, op, who):
    name = op["user"]
    if who != "root" and who != name:
        return Outcome((401, 403))
    if name not in state.users:
        return Outcome(404)
    kw = op.get("kw", {})
    s = state.copy()
    u = s.user_w(name)
    changed = False
    for k, v in kw.items():
        if k == "password":
            u["password"] = v
            changed = True
        elif k in PROPS:
            if v:
                if u["props"].get(k) != v:
                    u["props"][k] = v
                    changed = True
            elif k in u["props"]:
                del u["props"][k]
                changed = True
    return Outcome(200, s if changed else None)


def op_user_delete(state, op, who):
    name = op["user"]
    if name == "root" or who not in ("root", name):
        return Outcome((401, 403))
    if name not in state.users:
        return Outcome(404)
    for cfg in state.users[name]["indexes"].values():
        if not cfg["volatile"]:
            return Outcome(403)
    s = state.copy()
    del s.users[name]
    for st in list(s.projects):
        if st.startswith(name + "/"):
            del s.projects[st]
    return Outcome(200, s)


def op_login(state, op, who):
    name = op["user"]
    u = state.users.get(name)
    if u is None or u["password"] != op["password"]:
        return Outcome(401)
    return Outcome(200)


# -- indexes -----------------------------------------------------------------


def op_index_create(state, op, who):
    stage = op["stage"]
    user, index = stage.split("/")
    if user not in state.users:
        return Outcome(404)
    if index in state.users[user]["indexes"]:
        return Outcome(409)
    if who not in ("root", user):
        return Outcome((401, 403))
    if set(index) & BLOCKED:
        return Outcome(400)
    kw = op.get("kw", {})
    if not valid_bases(state, kw.get("bases", ())):
        return Outcome(400)
    cfg = stage_defaults(user)
    if kw.get("type") == "mirror":
        cfg = dict(type="mirror", volatile=True)
    cfg.update(copy.deepcopy(kw))
    for k in ("acl_upload", "acl_toxresult_upload"):
        if k in cfg:
            cfg[k] = norm_acl(cfg[k])
    s = state.copy()
    s.user_w(user)["indexes"][index] = cfg
    if cfg["type"] == "stage":
        s.projects[stage] = {}
    return Outcome(200, s, cfg)


def op_index_modify(state, op, who):
    stage = op["stage"]
    if not state.allowed("index_modify", who, stage):
        return Outcome((401, 403))
    user, index = stage.split("/")
    cfg = copy.deepcopy(state.config(stage))
    if "patch" in op:
        for p in op["patch"]:
            m = re.match(r"([a-z_]+)(\+=|-=|=)(.*)", p)
            key, oper, value = m.groups()
            if oper == "+=":
                if value not in cfg[key]:
                    cfg[key].append(value)
            elif oper == "-=":
                if value not in cfg[key]:
                    return Outcome(400)
                cfg[key].remove(value)
            else:
                cfg[key] = value
        if isinstance(cfg.get("volatile"), str):
            cfg["volatile"] = cfg["volatile"].lower() in ("true", "yes")
        if not valid_bases(state, cfg.get("bases", ())):
            return Outcome(400)
    else:
        kw = op["kw"]
        if not valid_bases(state, kw.get("bases", ())):
            return Outcome(400)
        cfg.update(copy.deepcopy(kw))
    for k in ("acl_upload", "acl_toxresult_upload"):
        if k in cfg:
            cfg[k] = norm_acl(cfg[k])
    if cfg == state.config(stage):
        return Outcome(200, None, cfg)
    s = state.copy()
    s.user_w(user)["indexes"][index] = cfg
    return Outcome(200, s, cfg)


def op_index_delete(state, op, who):
    stage = op["stage"]
    if not state.allowed("index_delete", who, stage):
        return Outcome((401, 403))
    user, index = stage.split("/")
    if not state.config(stage)["volatile"]:
        return Outcome(403)
    s = state.copy()
    del s.user_w(user)["indexes"][index]
    s.projects.pop(stage, None)
    return Outcome(201, s)


# -- releases ------------------------------------------------------------------


def op_register(state, op, who):
    stage = op["stage"]
    if state.config(stage) is None:
        return Outcome(404)
    if not state.allowed("upload", who, stage):
        return Outcome((401, 403))
    if op.get("invalid"):
        return Outcome(400)
    s = state.copy()
    projects = s.stage_w(stage)
    given = dict(op.get("kw", {}), name=op["name"], version=op["version"])
    set_meta(projects, normalize(op["name"]), op["version"], full_meta(given))
    return Outcome(200, changed(state, s))


def changed(old, new):
    """None if nothing changed"""
    for st in new.projects:
        if old.projects.get(st) != new.projects[st]:
            return new
    return None


def op_upload(state, op, who):
    stage = op["stage"]
    if state.config(stage) is None:
        return Outcome(404)
    if not state.allowed("upload", who, stage):
        return Outcome((401, 403))
    fn = op["fn"]
    project = normalize(op["name"])
    if op["version"] not in fn and re.sub(r"[^\w\d.]+", "_", op["version"]) not in fn:
        return Outcome(400)
    if not normalize(fn).startswith(project):
        return Outcome(400)
    given = dict(op.get("kw", {}), name=op["name"], version=op["version"])
    content = file_content(fn, op["var"])
    cfg = state.config(stage)
    existing = state.versions(stage, project).get(op["version"])
    if existing is not None and not cfg["volatile"]:
        for x in existing["links"]:
            if x["rel"] == "releasefile" and x["basename"] == fn:
                if x["sha"] == sha(content):
                    # an idempotent upload succeeds, whether the
                    # metadata gets refreshed is left open
                    s = state.copy()
                    set_meta(s.stage_w(stage), project, op["version"], given)
                    return Outcome(200, changed(state, s), "maybe")
                return Outcome(409)
    s = state.copy()
    projects = s.stage_w(stage)
    if existing is None:
        given = full_meta(given)
    v = set_meta(projects, project, op["version"], given)
    remove_links(v, basename=fn, rel="releasefile")
    v["links"].append(new_link(stage, "releasefile", fn, content))
    regen(projects, project)
    return Outcome(200, s)


def doc_name(project, version):
    return f"{project}-{version}.doc.zip"


def op_docs(state, op, who):
    stage = op["stage"]
    if state.config(stage) is None:
        return Outcome(404)
    if not state.allowed("upload", who, stage):
        return Outcome((401, 403))
    project = normalize(op["name"])
    version = op["version"]
    s = state.copy()
    projects = s.stage_w(stage)
    existing = state.versions(stage, project).get(version)
    given = dict(op.get("kw", {}), name=op["name"], version=version)
    basename = doc_name(project, version)
    content = file_content(basename, op["var"])
    if existing is not None and not state.config(stage)["volatile"]:
        for x in existing["links"]:
            if x["rel"] == "doczip":
                if x["sha"] == sha(content):
                    set_meta(projects, project, version, given)
                    return Outcome(200, changed(state, s), "maybe")
                return Outcome(409)
    if existing is None:
        given = full_meta(given)
    v = set_meta(projects, project, version, given)
    remove_links(v, basename=basename, rel="doczip")
    v["links"].append(new_link(stage, "doczip", basename, content))
    return Outcome(200, s)


def op_tox(state, op, who):
    stage = op["stage"]
    # missing permissions of a missing stage
    if not state.allowed("toxresult_upload", who, stage):
        return Outcome(403)
    path = relpath(stage, op["fn"], sha(file_content(op["fn"], op["var"])))
    found = state.find_file(path)
    if found is None or found[2]["rel"] != "releasefile":
        return Outcome(404)
    project, version, link = found
    s = state.copy()
    v = s.stage_w(stage)[project][version]
    v["links"].append(new_link(
        stage, "toxresult", None, tox_data(op), for_basename=op["fn"], path=False))
    return Outcome(200, s)


def tox_data(op):
    return ('{"testenvs": {}, "n": "%s"}' % op["data"]).encode()


def cleanup_version(projects, project, version):
    del projects[project][version]
    if not projects[project]:
        del projects[project]


def op_del_file(state, op, who):
    stage = op["stage"]
    if not state.allowed("del_entry", who, stage):
        return Outcome((401, 403))
    if not state.config(stage)["volatile"] and not op.get("force"):
        return Outcome(403)
    path = relpath(stage, op["fn"], sha(file_content(op["fn"], op["var"])))
    found = state.find_file(path)
    if found is None:
        return Outcome((404, 410))
    project, version, link = found
    s = state.copy()
    projects = s.stage_w(stage)
    v = projects[project][version]
    remove_links(v, basename=link["basename"])
    if not v["links"]:
        cleanup_version(projects, project, version)
    regen(projects, project)
    return Outcome(200, s)


def op_del_version(state, op, who):
    stage = op["stage"]
    if not state.allowed("del_verdata", who, stage):
        return Outcome((401, 403))
    if not state.config(stage)["volatile"] and not op.get("force"):
        return Outcome(403)
    project = normalize(op["name"])
    if op["version"] not in state.versions(stage, project):
        return Outcome(404)
    s = state.copy()
    projects = s.stage_w(stage)
    cleanup_version(projects, project, op["version"])
    regen(projects, project)
    return Outcome(200, s)


def op_del_project(state, op, who):
    stage = op["stage"]
    if not state.allowed("del_project", who, stage):
        return Outcome((401, 403))
    if not state.config(stage)["volatile"] and not op.get("force"):
        return Outcome(403)
    project = normalize(op["name"])
    if project not in state.projects.get(stage, {}):
        return Outcome(404)
    s = state.copy()
    del s.stage_w(stage)[project]
    return Outcome(200, s)


def op_push(state, op, who):
    stage, target = op["stage"], op["target"]
    if state.config(stage) is None:
        return Outcome(404)
    project = normalize(op["name"])
    src = state.versions(stage, project).get(op["version"])
    if src is None:
        return Outcome(400)
    rels = {"releasefile", "doczip", "toxresult"}
    if op.get("no_docs"):
        rels.discard("doczip")
    elif op.get("only_docs"):
        rels = {"doczip"}
    links = [x for x in src["links"] if x["rel"] in rels]
    if not links:
        return Outcome(404)
    if state.config(target) is None:
        return Outcome(404)
    if not state.allowed("upload", who, target):
        return Outcome(401)
    cfg = state.config(target)
    s = state.copy()
    projects = s.stage_w(target)
    v = set_meta(projects, project, op["version"], copy.deepcopy(src["meta"]))
    for x in sorted((x for x in links if x["rel"] == "releasefile"), key=lambda x: x["basename"]):
        if any(y["rel"] == "releasefile" and y["basename"] == x["basename"] for y in v["links"]):
            if not cfg["volatile"]:
                return Outcome(409)
        remove_links(v, basename=x["basename"], rel="releasefile")
        v["links"].append(dict(
            rel="releasefile", basename=x["basename"], sha=x["sha"],
            path=relpath(target, x["basename"], x["sha"])))
        for y in links:
            if y["rel"] == "toxresult" and y["for"] == x["basename"]:
                v["links"].append(dict(y))
        regen(projects, project)
    for x in links:
        if x["rel"] == "doczip":
            if any(y["rel"] == "doczip" for y in v["links"]) and not cfg["volatile"]:
                return Outcome(409)
            remove_links(v, basename=x["basename"], rel="doczip")
            v["links"].append(dict(
                rel="doczip", basename=x["basename"], sha=x["sha"],
                path=relpath(target, x["basename"], x["sha"])))
            break
    return Outcome(200, s)


# -- reads ---------------------------------------------------------------------


def view_user(state, name):
    u = state.users[name]
    return dict(username=name, indexes={i: view_index(c) for i, c in u["indexes"].items()},
                **u["props"])


def view_index(cfg):
    return {k: (sorted(v) if k.startswith("acl_") else v) for k, v in cfg.items()}


def view_version(d, shadowed=()):
    """canonical form of a version's data (see oracle.canon_version)."""
    out = dict(
        meta={k: v for k, v in d["meta"].items() if v},
        links=sorted(
            [x["rel"], x["basename"] or "", x["sha"], x.get("for") or ""]
            for x in d["links"]))
    if shadowed:
        out["shadowing"] = [view_version(x) for x in shadowed]
    return out


def op_user_list(state, op, who):
    return Outcome(200, None, {n: view_user(state, n) for n in state.users})


def op_api_get(state, op, who):
    return Outcome(200, None, ["noauth", "", []] if who is None else ["ok", who, []])


def op_user_get(state, op, who):
    if op["user"] not in state.users:
        return Outcome(404)
    return Outcome(200, None, view_user(state, op["user"]))


def op_index_get(state, op, who):
    cfg = state.config(op["stage"])
    if cfg is None:
        return Outcome(404)
    return Outcome(200, None, dict(
        config=view_index(cfg), projects=sorted(state.projects.get(op["stage"], {}))))


def op_project_get(state, op, who):
    stage = op["stage"]
    if state.config(stage) is None:
        return Outcome(404)
    project = normalize(op["name"])
    versions = state.visible_versions(stage, project)
    if not versions:
        return Outcome(404)
    return Outcome(200, None, {v: view_version(d, sh) for v, (s, d, sh) in versions.items()})


def op_version_get(state, op, who):
    stage = op["stage"]
    if state.config(stage) is None:
        return Outcome(404)
    project = normalize(op["name"])
    versions = state.visible_versions(stage, project)
    if op["version"] not in versions:
        return Outcome(404)
    return Outcome(200, None, view_version(*versions[op["version"]][1:]))


def op_simple(state, op, who):
    stage = op["stage"]
    if state.config(stage) is None:
        return Outcome(404)
    project = normalize(op["name"])
    links = state.simple(stage, project)
    if not links and not state.has_project(stage, project):
        return Outcome(404)
    return Outcome(200, None, {k: list(v) for k, v in links.items()})


def op_simple_all(state, op, who):
    stage = op["stage"]
    if state.config(stage) is None:
        return Outcome(404)
    names = set()
    for s in state.stage_sro(stage):
        names.update(state.projects.get(s, {}))
    return Outcome(200, None, sorted(names))


def op_file_get(state, op, who):
    stage = op["stage"]
    digest = sha(file_content(op["fn"], op["var"]))
    path = relpath(stage, op["fn"], digest)
    if state.config(stage) is None:
        return Outcome((404, 410))
    if path not in state.files():
        return Outcome((404, 410))
    return Outcome(200, None, digest)


def latest(versions, stable=False):
    """newest first"""
    out = sorted(versions, key=lambda v: [int(x) for x in re.findall(r"\d+", v)], reverse=True)
    return [v for v in out if not stable or not re.search("[abc]", v)]


def docs_of(state, stage, project, version):
    """(version, variant content) of the documentation shown for version"""
    have = state.versions(stage, project)
    if version in ("latest", "stable"):
        todo = latest(have, version == "stable")
    else:
        todo = [version]
    for v in todo:
        for x in have.get(v, {}).get("links", ()):
            if x["rel"] == "doczip":
                for var in (0, 1, 2):
                    if sha(file_content(x["basename"], var)) == x["sha"]:
                        return v, x["basename"], var
    return None


def op_doc_get(state, op, who):
    found = docs_of(state, op["stage"], normalize(op["name"]), op["version"])
    if found is None:
        return Outcome(404)
    version, fn, var = found
    page = doc_pages(fn, var).get(op["page"])
    if "etag" in op and sha(file_content(fn, op["etag"])) == sha(file_content(fn, var)):
        return Outcome(304)
    if page is None:
        return Outcome(404)
    return Outcome(200, None, sha(page))


def op_search(state, op, who):
    if op.get("stage") and state.config(op["stage"]) is None:
        return Outcome(200, None, "missing index")
    return Outcome(200)


def op_page_get(state, op, who):
    return Outcome((200, 302, 404))


def basename_of(path):
    return posixpath.basename(path)
