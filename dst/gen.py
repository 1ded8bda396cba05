"""Seeded generation of plans: workloads, schedules and faults."""
import random

PROJECTS = [("foo", "foo"), ("Bar_Baz", "Bar_Baz"), ("qux", "qux")]
VERSIONS = ["1.0", "1.1", "2.0a1"]


def filename(rng, pname, version, kind=None):
    kind = kind or rng.choice(["sdist", "sdist", "wheel"])
    if kind == "sdist":
        return f"{pname}-{version}.tar.gz"
    return f"{pname.replace('-', '_')}-{version}-py2.py3-none-any.whl"


class Gen:
    def __init__(self, rng, users=("u0", "u1"), stages=("u0/dev", "u0/prod", "u1/dev"),
                 projects=2, versions=2, weights=None, token_p=0.2):
        self.rng = rng
        self.users = list(users)
        self.stages = list(stages)
        self.projects = PROJECTS[:projects]
        self.versions = VERSIONS[:versions]
        self.weights = dict(DEFAULT_WEIGHTS)
        self.token_p = token_p
        self.bases_p = 0
        self.invalid_p = 0.08
        self.force_p = 0.3
        self.passwords = False      # change passwords
        if weights is not None:
            self.weights = dict(weights)

    def release(self):
        rng = self.rng
        name, fn = rng.choice(self.projects)
        version = rng.choice(self.versions)
        return name, version, filename(rng, fn, version)

    def actor(self, stage=None):
        rng = self.rng
        if stage is not None and rng.random() < 0.75:
            return stage.split("/")[0]
        return rng.choice([*self.users, "root", None])

    def read_of(self, w):
        """a request which shows the effect of a writing one"""
        rng = self.rng
        stage = w.get("target") if w["op"] == "push" else w.get("stage")
        if w["op"].startswith("user_"):
            return dict(op="user_get", user=w.get("user", self.users[0]), **{"as": None})
        if w["op"].startswith("index_") and stage:
            return dict(op="index_get", stage=stage, **{"as": None})
        if stage and "fn" in w and rng.random() < 0.5 and "name" not in w:
            return dict(op="file_get", stage=stage, fn=w["fn"], var=w.get("var", 0), **{"as": None})
        if stage and "name" in w and isinstance(stage, str) and "/" in stage:
            if "version" in w and rng.random() < 0.5:
                return dict(op="version_get", stage=stage, name=w["name"], version=w["version"], **{"as": None})
            return dict(op="project_get", stage=stage, name=w["name"], **{"as": None})
        return None

    def op(self):
        rng = self.rng
        kinds = list(self.weights)
        k = rng.choices(kinds, [self.weights[x] for x in kinds])[0]
        op = getattr(self, "g_" + k)()
        if "as" in op and op["as"] is not None:
            r = rng.random()
            if r < self.token_p:
                op["token"] = True
            elif self.passwords and r < self.token_p + 0.25:
                op["pw"] = rng.choice(["alt" + op["as"], "alt" + op["as"], "wrong", ""])
        if rng.random() < 0.3:
            op["d"] = round(rng.random() * 0.3, 3)
        return op

    def g_user_create(self):
        rng = self.rng
        u = rng.choice(self.users + ["u9", "bad:name"])
        op = dict(op="user_create", user=u, password="pw" + u, **{"as": rng.choice(["root", None])})
        r = rng.random()
        if r < 0.3:
            op["kw"] = dict(email=f"{u}@x{rng.randrange(3)}")
        elif r < 0.35:
            op["kw"] = dict(bogus="x")
        elif r < 0.4:
            op["password"] = None
        return op

    def g_user_modify(self):
        rng = self.rng
        u = rng.choice(self.users + ["u9"])
        kw = rng.choice([
            dict(email=f"{u}@y{rng.randrange(4)}"), dict(title=f"t{rng.randrange(3)}"),
            dict(email=""), dict(title=f"a{rng.randrange(3)}", description=f"b{rng.randrange(3)}"),
            dict(password="pw" + u)])
        if self.passwords and rng.random() < 0.5:
            kw = dict(password=rng.choice(["pw" + u, "alt" + u]))
        return dict(op="user_modify", user=u, kw=kw, **{"as": rng.choice([u, u, "root", None, self.users[0]])})

    def g_user_delete(self):
        rng = self.rng
        u = rng.choice(self.users[1:] + ["u9"])
        return dict(op="user_delete", user=u, **{"as": rng.choice([u, "root", None])})

    def g_login(self):
        rng = self.rng
        u = rng.choice(self.users)
        return dict(op="login", user=u, password=rng.choice(
            ["pw" + u] * 4 + (["alt" + u] * 3 if self.passwords else []) + ["wrong"]), **{"as": None})

    def g_index_create(self):
        rng = self.rng
        st = rng.choice(self.stages + ["u9/dev"])
        kw = {}
        if rng.random() < 0.5:
            kw["volatile"] = rng.random() < 0.7
        if rng.random() < 0.4:
            kw["bases"] = rng.sample(self.stages, rng.randrange(1, min(3, len(self.stages) + 1)))
        if rng.random() < 0.3:
            kw["acl_upload"] = rng.sample(self.users, 1) + rng.choice([[], [":AUTHENTICATED:"]])
        return dict(op="index_create", stage=st, kw=kw, **{"as": self.actor(st)})

    def g_index_modify(self):
        rng = self.rng
        st = rng.choice(self.stages)
        op = dict(op="index_modify", stage=st, **{"as": self.actor(st)})
        r = rng.random()
        u = rng.choice(self.users)
        b = rng.choice(self.stages)
        if r < 0.25:
            op["patch"] = [rng.choice([f"acl_upload+={u}", f"acl_upload-={u}"])]
        elif r < 0.45 or rng.random() < self.bases_p:
            op["patch"] = [rng.choice([f"bases+={b}", f"bases+={b}", f"bases-={b}"])]
            if rng.random() < 0.3:
                del op["patch"]
                op["kw"] = dict(bases=rng.sample(self.stages, rng.randrange(0, min(3, len(self.stages) + 1))))
        elif r < 0.55:
            op["patch"] = [f"title=t{rng.randrange(3)}"]
        elif r < 0.65:
            op["kw"] = dict(bases=rng.sample(self.stages, rng.randrange(0, 2)))
        elif r < 0.8:
            op["kw"] = dict(description=f"d{rng.randrange(3)}")
        elif r < 0.9:
            op["kw"] = dict(volatile=rng.random() < 0.6)
        else:
            op["kw"] = dict(acl_upload=rng.sample(self.users, 1))
        return op

    def g_index_delete(self):
        st = self.rng.choice(self.stages)
        return dict(op="index_delete", stage=st, **{"as": self.actor(st)})

    def meta(self):
        rng = self.rng
        kw = {}
        if rng.random() < 0.5:
            kw["summary"] = f"summary{rng.randrange(4)}"
        if rng.random() < 0.3:
            kw["requires_python"] = rng.choice([">=3.6", "<4"])
        if rng.random() < 0.2:
            kw["classifiers"] = [f"c{rng.randrange(2)}", "d"]
        return kw

    def g_register(self):
        st = self.rng.choice(self.stages)
        name, version, fn = self.release()
        op = dict(op="register", stage=st, name=name, version=version, kw=self.meta(), **{"as": self.actor(st)})
        if self.rng.random() < self.invalid_p:
            op["invalid"] = "noversion"
        return op

    def g_upload(self):
        rng = self.rng
        st = rng.choice(self.stages)
        name, version, fn = self.release()
        op = dict(op="upload", stage=st, name=name, version=version, fn=fn,
                  var=rng.choice([0, 0, 1]), kw=self.meta(), **{"as": self.actor(st)})
        if rng.random() < self.invalid_p / 2:
            op["version"] = "9.9"
        return op

    def g_docs(self):
        rng = self.rng
        st = rng.choice(self.stages)
        name, version, fn = self.release()
        return dict(op="docs", stage=st, name=name, version=version,
                    var=rng.choice([0, 1]), **{"as": self.actor(st)})

    def g_tox(self):
        rng = self.rng
        st = rng.choice(self.stages)
        name, version, fn = self.release()
        return dict(op="tox", stage=st, fn=fn, var=rng.choice([0, 0, 1]),
                    data=rng.randrange(3), **{"as": self.actor(st)})

    def g_del_file(self):
        rng = self.rng
        st = rng.choice(self.stages)
        name, version, fn = self.release()
        return dict(op="del_file", stage=st, fn=fn, var=rng.choice([0, 0, 1]),
                    force=rng.random() < self.force_p, **{"as": self.actor(st)})

    def g_del_version(self):
        rng = self.rng
        st = rng.choice(self.stages)
        name, version, fn = self.release()
        return dict(op="del_version", stage=st, name=name, version=version,
                    force=rng.random() < self.force_p, **{"as": self.actor(st)})

    def g_del_project(self):
        rng = self.rng
        st = rng.choice(self.stages)
        name, version, fn = self.release()
        return dict(op="del_project", stage=st, name=name,
                    force=rng.random() < self.force_p, **{"as": self.actor(st)})

    def g_push(self):
        rng = self.rng
        st = rng.choice(self.stages)
        others = [s for s in self.stages if s != st] or ["u9/dev"]
        tgt = rng.choice(others)
        name, version, fn = self.release()
        op = dict(op="push", stage=st, name=name, version=version, target=tgt, **{"as": self.actor(tgt)})
        r = rng.random()
        if r < 0.1:
            op["no_docs"] = True
        elif r < 0.2:
            op["only_docs"] = True
        if rng.random() < 0.3:
            op["method"] = "PUSH"
        return op

    def g_api_get(self):
        return dict(op="api_get", **{"as": self.rng.choice([*self.users, "root"])})

    def g_user_list(self):
        return dict(op="user_list", **{"as": None})

    def g_user_get(self):
        return dict(op="user_get", user=self.rng.choice(self.users), **{"as": None})

    def g_index_get(self):
        return dict(op="index_get", stage=self.rng.choice(self.stages), **{"as": None})

    def g_project_get(self):
        name, version, fn = self.release()
        return dict(op="project_get", stage=self.rng.choice(self.stages), name=name, **{"as": None})

    def g_version_get(self):
        name, version, fn = self.release()
        return dict(op="version_get", stage=self.rng.choice(self.stages), name=name, version=version, **{"as": None})

    def g_simple(self):
        name, version, fn = self.release()
        return dict(op="simple", stage=self.rng.choice(self.stages), name=name,
                    json=self.rng.random() < 0.5, **{"as": None})

    def g_simple_all(self):
        return dict(op="simple_all", stage=self.rng.choice(self.stages),
                    json=self.rng.random() < 0.5, **{"as": None})

    def g_file_get(self):
        rng = self.rng
        name, version, fn = self.release()
        op = dict(op="file_get", stage=rng.choice(self.stages), fn=fn, var=rng.choice([0, 0, 1]), **{"as": None})
        if rng.random() < 0.2:
            op["method"] = "HEAD"
        return op


DEFAULT_WEIGHTS = dict(
    user_create=2, user_modify=4, user_delete=1, login=2, index_create=3,
    index_modify=6, index_delete=1.5, register=4, upload=18, docs=4, tox=4,
    del_file=4, del_version=3, del_project=2, push=8,
    user_list=2, user_get=2, index_get=4, project_get=4, version_get=4,
    simple=5, simple_all=2, file_get=5)


def setup_ops(rng, users=("u0", "u1"), stages=("u0/dev", "u0/prod", "u1/dev")):
    out = []
    for u in users:
        out.append(dict(op="user_create", user=u, password="pw" + u, **{"as": "root"}))
    for st in stages:
        kw = {}
        if st.endswith("prod"):
            kw["volatile"] = False
        if st == stages[-1] and rng.random() < 0.7:
            kw["bases"] = [stages[0]]
        if rng.random() < 0.4:
            kw["acl_upload"] = sorted(set([st.split("/")[0], rng.choice(list(users))]))
        out.append(dict(op="index_create", stage=st, kw=kw, **{"as": "root"}))
    return out


def sched(rng, **kw):
    """schedule parameters (swarm style)."""
    d = dict(seed_sched=rng.randrange(1 << 30))
    r = rng.random()
    if r < 0.25:
        d["mode"] = "pct"
        d["pct_d"] = rng.choice([1, 2, 3, 5])
        d["pct_horizon"] = rng.choice([2000, 8000, 30000])
    else:
        d["preempt"] = {"default": rng.choice([0.02, 0.1, 0.3, 0.6])}
        if rng.random() < 0.3:
            d["preempt"][rng.choice(["db.commit", "db.after-commit", "lock", "unlock", "fs.after-rename"])] = 0.9
    d["stall_p"] = rng.choice([0, 0, 0.0005, 0.003])
    d["stall_max"] = rng.choice([0.05, 1.0, 5.0])
    if rng.random() < 0.4:
        # slow disk
        d["slow"] = {
            rng.choice(["db.write", "db.commit", "db.after-commit", "fs.rename", "fs.openw", "fs.remove",
                        "db.read", "lock"]): [rng.choice([0.02, 0.2, 0.7]), rng.choice([0.01, 0.1, 1.0])]
            for _ in range(rng.choice([1, 2]))}
    d["ident_reuse"] = rng.choice([0.0, 0.5, 1.0])
    d.update(kw)
    return d


CRASH_KINDS = [
    ("fs.openw", 1), ("fs.write", 2), ("fs.close", 1), ("fs.rename", 3), ("fs.after-rename", 4),
    ("fs.remove", 3), ("fs.after-remove", 4), ("db.write", 4), ("db.commit", 5),
    ("db.after-commit", 5), ("db.close", 1), ("lock", 1), ("net.chunk", 1), ("fs.mkdir", 1)]


def crash(rng, node, nmax=40, kinds=CRASH_KINDS, **kw):
    kind = rng.choices([k for k, w in kinds], [w for k, w in kinds])[0]
    nth = min(int(rng.expovariate(1.0) * nmax / 3), nmax * 3)
    if kind in ("lock",):
        nth *= 20
    if kind.startswith("fs.") and "remove" in kind:
        nth //= 5
    return dict(type="crash", node=node, kind=kind, nth=nth,
                restart=round(rng.choice([0.1, 1.0, 5.0]) * rng.random(), 3), state="up", **kw)


def rng_for(name, seed):
    return random.Random(f"{name}:{seed}")
