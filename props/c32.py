"""C32: RADS components designate projects, solutions and versions, and get their files"""
import os

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): RADS storage specified as a state machine (server, stored files, downloads, component strings), model checked; queries and downloads of the real code validated step by step"
NOTE = ("The specification says what component strings denote, which versions and names are listed from the server or from the stored files, and which files and requests a download needs. "
        "TLC checks it for small servers and interrupted downloads. Sequences of queries and downloads on random servers are run on the real code, with missing resources, "
        "and each result, the stored files and the requests are validated.")
RULE = ("servers with 1 to 3 projects and solutions of 1 to 4 versions, versions sharing files of former ones, shuffled listings; 4 to 9 operations: component strings (valid and not), versions from the server or stored, "
        "names stored, downloads of projects, solutions and versions with selected languages, resources missing then restored; non-trivial: a download and at least two other operations")
ASSUMPTIONS = ["listings of projects are sorted from the newest version", "patches by component are checked by C03", "selected languages are listed in each solution manifest", "listing an empty storage may fail"]


def designs(g):
    yield "MC_RadsStore", "MC_RadsStore_thorough.cfg" if g.thorough else "MC_RadsStore.cfg", {"workers": 4}


PNAMES = ["league_client", "lol_game_client", "lol_air_client_en_us", "x1", "proj_sln"]
SNAMES = ["league_client_sln", "lol_game_client_sln", "my_sln", "other"]


def vkey(v):
    return [int(x) for x in v.split(".")]


def versions(rng, n):
    alpha = [0, 1, 2, 9, 10, 11, 99, 100, 253]
    ret = set()
    while len(ret) < n:
        ret.add(f"0.0.{rng.choice([0, 0, 1, 10, 9])}.{rng.choice(alpha)}")
    return sorted(ret, key=vkey)


def gen_world(rng):
    from vlib import radsdrv
    projects, solutions = [], []
    for name in rng.sample(PNAMES, rng.choice([1, 2, 2, 3])):
        old = None
        for v in versions(rng, rng.choice([1, 2, 2, 3, 4])):
            p = radsdrv.gen_project(rng, name, v, rng.choice([1, 1, 2, 3]))
            if old is not None and rng.random() < .5:  # files of a former version
                for e in rng.sample(old["entries"], rng.randint(1, len(old["entries"]))):
                    e = dict(e, base=e.get("base", f"projects/{name}/releases/{old['version']}"), package=1)
                    p["entries"].append(e)
                p["order"] = rng.sample(range(len(p["entries"])), len(p["entries"]))
            projects.append(p)
            old = p
    langs = rng.sample(["en_us", "de_de", "fr_fr"], rng.choice([0, 1, 2]))
    for name in rng.sample(SNAMES, rng.choice([0, 1, 1, 2])):
        for v in versions(rng, rng.choice([1, 2, 3])):
            names = rng.sample(sorted({p["name"] for p in projects}), rng.randint(1, len({p["name"] for p in projects})))
            ps = [[n, rng.choice([p["version"] for p in projects if p["name"] == n]), rng.random() < .6] for n in names]
            solutions.append({"name": name, "version": v, "projects": ps, "langs": {x: rng.sample(names, rng.randint(0, len(names))) for x in langs}})
    # newest projects first
    projects.sort(key=lambda p: vkey(p["version"]), reverse=True)
    rng.shuffle(solutions)
    return {"projects": projects, "solutions": solutions, "langs": langs}


def component(rng, w):
    things = [(p["name"], p["version"]) for p in w["projects"] + w["solutions"]]
    name, v = rng.choice(things)
    r = rng.random()
    if r < .15:
        return rng.choice(["", "=", "patch", "p:", "s:=0.0.0.1", "q:x", f"{name}=1.2", f"{name}={v}.", f"{name}=.{v}", f"{name}={v}.1", f"p:{name}=1", f"{name} ", f"{name}=={v}", f"{name}=a", f"x-y={v}", f"{v}",
                           f"{name}=0..0.1", f"{name}={v}x", f"s:p:{name}", f"{name}=main"])
    if r < .3:
        v = rng.choice(["0.0.0.77", "1.2.3.4", "10.0.0.0"])
    typ = rng.choice(["", "", "s:", "p:"])
    return typ + name + rng.choice(["", "=", "=" + v, "=" + v])


def cases(g):
    rng = g.rng
    for _ in range(g.pick(450, 5000)):
        w = gen_world(rng)
        ops = []
        for _ in range(rng.randint(4, 9)):
            r = rng.random()
            if r < .3:
                ops.append({"o": "parse", "text": component(rng, w)})
            elif r < .45:
                what = rng.choice("pss")
                name = rng.choice([x["name"] for x in (w["projects"] if what == "p" else w["solutions"])] + ["nothing"])
                ops.append({"o": "versions", "what": what, "name": name, "stored": what == "s" and rng.random() < .5, "missing": rng.random() < .1})
            elif r < .6:
                ops.append({"o": "list", "what": rng.choice("ps")})
            else:
                what = rng.choice(["p", "pv", "s", "sv"] if w["solutions"] else ["p", "pv"])
                x = rng.choice(w["projects"] if what[0] == "p" else w["solutions"])
                k = rng.choice(["none", "all", "all", "one", "list"]) if w["langs"] else rng.choice(["none", "all"])
                sel = {"kind": k, "list": [] if k in ("none", "all") else [rng.choice(w["langs"])] if k == "one" else rng.sample(w["langs"], rng.randint(1, len(w["langs"])))}
                ops.append({"o": "download", "what": what, "name": x["name"], "version": x["version"], "sel": sel, "missing": rng.choice([0, 0, 0, 1, 2]), "n": rng.randrange(1 << 20)})
        for name in sorted({s["name"] for s in w["solutions"]}):
            ops.append({"o": "versions", "what": "s", "name": name, "stored": True, "missing": False})
        yield {"world": w, "ops": ops + [{"o": "list", "what": "p"}]}


def nontrivial(case, trace):
    return any(e["op"] == "download" for e in trace["ev"]) and len(trace["ev"]) >= 3


def run(case, env):
    import random
    from vlib import guard
    from vlib.radsdrv import RadsWorld
    from cdtb.rads import RadsProject, RadsProjectVersion, RadsSolution, RadsSolutionVersion, RadsVersion, parse_rads_component
    from cdtb.data import Language
    w = RadsWorld(case["world"], env)
    projects, solutions, where = [], [], {}

    def manifest(d, name, url=None):
        return {"path": f"{d}/{name}", "url": w.url + d + "/" + (url or name)}
    for p in case["world"]["projects"]:
        d = f"projects/{p['name']}/releases/{p['version']}"
        projects.append({"name": p["name"], "version": p["version"], "files": [{"path": a, "url": b} for a, b in w.items.get(d, [])],
                         "manifests": [manifest(d, "packagemanifest", "packages/files/packagemanifest"), manifest(d, "releasemanifest")]})
    for s in case["world"]["solutions"]:
        d = f"solutions/{s['name']}/releases/{s['version']}"
        ver = {n: v for n, v, _ in s["projects"]}
        solutions.append({"name": s["name"], "version": s["version"], "manifest": manifest(d, "solutionmanifest"),
                          "m": {"ok": True, "required": [[n, v] for n, v, r in s["projects"] if r], "langs": [[x, [[n, ver[n]] for n in ns]] for x, ns in s["langs"].items()]}})
    for x in projects:
        for f in x["files"] + x["manifests"]:
            a = f["path"].split("/")
            where[f["path"]] = ["p", a[1], a[3]]
    for x in solutions:
        where[x["manifest"]["path"]] = ["s", x["name"], x["version"]]
    urls = sorted({f["url"] for x in projects for f in x["files"] + x["manifests"]} | {x["manifest"]["url"] for x in solutions})

    def have():
        ret, wrong = [], []
        with guard.disabled():
            for d, _, fs in os.walk(w.root):
                for f in fs:
                    rel = os.path.relpath(os.path.join(d, f), w.root)
                    with open(os.path.join(d, f), "rb") as fd:
                        data = fd.read()
                    if rel not in where or (rel in w.plain and data != w.plain[rel]):
                        wrong.append(rel)
                    if rel in where:
                        ret.append(rel)
        return sorted(ret), sorted(wrong)

    storage = w.storage()
    objs, ev = [], []

    def describe(o):
        for k, what, name in ((RadsProject, "p", lambda: o.name), (RadsSolution, "s", lambda: o.name), (RadsProjectVersion, "p", lambda: o.project.name), (RadsSolutionVersion, "s", lambda: o.solution.name)):
            if type(o) is k:
                return {"what": what, "name": name(), "version": str(getattr(o, "version", ""))}
        return {"what": "other", "name": repr(o), "version": ""}

    def same(a, b):
        eq, ne = a == b, a != b
        if eq and not ne and hash(a) == hash(b):
            return "same"
        return "different" if ne and not eq else "unclear"
    with w.cdn:
        for op in case["ops"]:
            e = {"op": op["o"]}
            start = len(w.cdn.log)
            if op["o"] == "parse":
                st, o = env.call(parse_rads_component, storage, op["text"])
                e.update(text=op["text"], status=st, out=describe(o) if st == "ok" else {"what": "", "name": "", "version": ""}, same=[])
                if st == "ok":
                    e["same"] = [same(o, x) for x in objs]
                    objs.append(o)
            elif op["o"] == "versions":
                k = {"p": RadsProject, "s": RadsSolution}[op["what"]](storage, op["name"])
                path = w.url + {"p": "projects", "s": "solutions"}[op["what"]] + f"/{op['name']}/releases/releaselisting"
                keep = w.cdn.files.pop(path, None) if op["missing"] else None
                st, o = env.call(lambda: list(k.versions(stored=True) if op["stored"] else k.versions()))
                if keep is not None:
                    w.cdn.files[path] = keep
                e.update(what=op["what"], name=op["name"], stored=op["stored"], missing=op["missing"] and not op["stored"], status=st, out=[str(x.version) for x in o] if st == "ok" else [])
            elif op["o"] == "list":
                st, o = env.call(storage.list_projects if op["what"] == "p" else storage.list_solutions)
                e.update(what=op["what"], status=st, out=sorted(x.name for x in o) if st == "ok" else [])
            else:
                rng = random.Random(op["n"])
                missing = rng.sample(urls, min(len(urls), op["missing"]))
                kept = {u: w.cdn.files.pop(u) for u in missing}
                sel = op["sel"]
                langs = {"none": False, "all": True, "one": sel["list"] and Language(sel["list"][0]), "list": [Language(x) for x in sel["list"]]}[sel["kind"]]
                project, solution = RadsProject(storage, op["name"]), RadsSolution(storage, op["name"])
                f = {"p": project.download, "pv": lambda: RadsProjectVersion(project, RadsVersion(op["version"])).download(), "s": lambda: solution.download(langs),
                     "sv": lambda: RadsSolutionVersion(solution, RadsVersion(op["version"])).download(langs)}[op["what"]]
                st, _ = env.call(f)
                w.cdn.files.update(kept)
                hv, wrong = have()
                e.update(what=op["what"], name=op["name"], version=op["version"], sel=sel, missing=missing, status=st, have=hv, wrong=wrong, listing=False)
            reqs = [u for u, *_ in w.cdn.log[start:]]
            e["fetched"] = [r for r in reqs if not r.endswith("releaselisting")] if op["o"] == "download" else reqs
            ev.append(e)
    return {"world": {"projects": projects, "solutions": solutions, "where": where}, "ev": ev}
