"""C11: RADS solutions resolve to the right projects and files"""

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): manifest format and language selection specified and checked (round trip, damages); generated manifests replayed on the real code"
NOTE = ("The text format of solution manifests is parsed in TLA+ (round trip and detection of damages checked by TLC for all manifests of 3 (4) projects "
        "and 2 languages). Manifests it generates and random ones are served to the real code; projects, paths and downloads for every kind of "
        "language selection are validated.")
RULE = ("manifests with required/optional projects and languages sharing projects, intact, cut, with replaced lines or mismatching headers; "
        "selections none, all, one language, lists; as Language values, strings and on the command line; non-trivial: at least two projects")
ASSUMPTIONS = ["selected languages are listed in the solution manifest", "projects of a solution have distinct names"]

LANGS = ["en_us", "de_de", "fr_fr", "ko_kr"]


def designs(g):
    yield "MC_Solution", "MC_Solution_thorough.cfg" if g.thorough else "MC_Solution.cfg", {"workers": 4}


def random_sel(rng, langs):
    r = rng.random()
    if r < .2 or not langs:
        return {"kind": rng.choice(["none", "all"]), "list": []}
    if r < .4:
        return {"kind": "none", "list": []} if rng.random() < .5 else {"kind": "all", "list": []}
    if r < .65:
        return {"kind": "one", "list": [rng.choice(langs)]}
    return {"kind": "list", "list": rng.sample(langs, rng.randint(0, len(langs)))}


def gen_ops(rng, langs, damaged):
    kinds = ["projects"] if damaged else ["projects", "projects", "paths", "fspaths", "relpaths", "zip", "download", "cli-fs", "cli-rel", "cli-download"]
    return [{"o": rng.choice(kinds), "sel": random_sel(rng, langs), "as": rng.choice(["enum", "str"])} for _ in range(rng.choice([2, 3, 4]))]


def cases(g):
    from vlib import radsdrv
    rng = g.rng
    scen = g.scenarios("MC_Solution", "MC_Solution_gen.cfg", simulate=g.pick(60, 600), depth=20)
    rng.shuffle(scen)
    for s in scen[:g.pick(400, 6000)]:
        lines = s["lines"]
        damaged = bool(s["damage"][1])
        langs = list(s["langs"])
        projects = []
        if not damaged:
            n = int(lines[4])
            projects = [radsdrv.gen_project(rng, lines[5 + 4 * i], lines[6 + 4 * i], rng.randint(0, 3)) for i in range(n)]
        yield {"lines": lines, "name": "league_client_sln", "version": "0.0.0.5", "projects": projects,
               "ops": gen_ops(rng, langs, damaged)}
    for _ in range(g.pick(250, 2500)):
        n = rng.randint(1, 6)
        name = rng.choice(["league_client_sln", "lol_game_client_sln"])
        names = rng.sample(["league_client", "lol_game_client", "league_client_en_us", "p_de_de", "shared", "voice", "x1"], n)
        projects = [radsdrv.gen_project(rng, x, f"0.0.{rng.randint(0, 3)}.{rng.randint(0, 255)}", rng.randint(0, 3)) for x in names]
        langs = {x: rng.sample(names, rng.randint(0, n)) for x in rng.sample(LANGS, rng.randint(0, 4))}
        v = f"0.0.1.{rng.randint(0, 255)}"
        lines = ["RADS Solution Manifest", "1.0.0.0", name, v, str(n)]
        for p in projects:
            lines += [p["name"], p["version"], rng.choice(["0", "0", "10"]), "0"]
        lines.append(str(len(langs)))
        for x, ds in langs.items():
            lines += [x, "0", str(len(ds))] + ds
        damaged = rng.random() < .25
        if damaged:
            i = rng.randrange(len(lines))
            r = rng.random()
            if r < .3:
                lines = lines[:i]
            elif r < .6:
                lines[i] = rng.choice(["", "x", "99", "0.0.0.1", "5"])
            elif r < .8:
                lines[2] = {"league_client_sln": "lol_game_client_sln"}.get(name, "league_client_sln")
            else:
                lines[3] = "0.0.9.9"
        yield {"lines": lines, "name": name, "version": v, "projects": projects, "ops": gen_ops(rng, sorted(langs), damaged)}


def nontrivial(case, trace):
    return len(case["lines"]) > 12


def run(case, env):
    import os
    from vlib import guard
    from vlib.radsdrv import RadsWorld, STORE
    sol = {"name": case["name"], "version": case["version"], "projects": [], "langs": {}}
    w = RadsWorld({"projects": case["projects"], "solutions": [sol]}, env)
    w.cdn.put(f"{w.url}solutions/{sol['name']}/releases/{sol['version']}/solutionmanifest", ("\r\n".join(case["lines"]) + "\r\n").encode() if case["lines"] else b"")
    elem = {"league_client_sln": "client", "lol_game_client_sln": "game"}[sol["name"]]
    with guard.disabled():
        d = os.path.join(w.root, "solutions", sol["name"], "releases", sol["version"])
        os.makedirs(d)
        with open(os.path.join(d, "_patch_version"), "w") as f:
            f.write("4.7\n")
    files = {}
    where = {}
    for p in case["projects"]:
        base = f"projects/{p['name']}/releases/{p['version']}"
        key = f"{p['name']}={p['version']}"
        files[key] = [{"path": e["file"], "lpath": e["file"].split("/", 1)[1].lower()} for e in p["entries"]]
        for e in p["entries"]:
            where[f"{base}/{e['file']}"] = [key, e["file"]]

    def loc(fspath):
        rel = os.path.relpath(fspath, w.root)
        return where.get(rel, ["?", str(fspath)])

    def stored():
        ret, wrong = [], []
        with guard.disabled():
            for path, k in where.items():
                fp = os.path.join(w.root, path)
                if os.path.isfile(fp):
                    ret.append(k)
                    with open(fp, "rb") as f:
                        if f.read() != w.plain[path]:
                            wrong.append(k)
        return ret, wrong
    from cdtb.data import Language
    from cdtb.rads import RadsPatchElement
    ev = []
    with w.cdn:
        for o in case["ops"]:
            sel = o["sel"]
            conv = Language if o["as"] == "enum" else str
            langs = {"none": lambda: False, "all": lambda: True, "one": lambda: conv(sel["list"][0]), "list": lambda: [conv(x) for x in sel["list"]]}[sel["kind"]]()
            kw = {} if langs is True and len(ev) % 2 == 0 else {"langs": langs}   # all of them by default
            sv = w.solution_version(sol)
            kind, e = o["o"], {}
            if kind == "projects":
                st, r = env.call(sv.projects, *kw.values())
                out = [[pv.project.name, str(pv.version)] for pv in r] if st == "ok" else []
            elif kind.startswith("cli"):
                comp = f"{elem}=4.7"
                la = {"none": ["--no-lang"], "all": [], "one": ["--lang"] + sel["list"], "list": ["--lang"] + sel["list"]}[sel["kind"]]
                args = {"cli-fs": ["files"], "cli-rel": ["files", "-r"], "cli-download": ["download"]}[kind] + ["-s", "rads:" + w.root, comp] + la
                before, _ = stored()
                st, text, err = env.cli(args)
                lines = text.splitlines()
                if kind == "cli-fs":
                    kind, out = "fspaths", [loc(x) for x in lines]
                elif kind == "cli-rel":
                    kind, out = "relpaths", lines
                else:
                    kind = "download"
                    out, wrong = stored()
                    e = {"before": before, "wrong": wrong}
            elif kind == "download":
                before, _ = stored()
                st, r = env.call(lambda: RadsPatchElement(sv).download(**kw))
                out, wrong = stored()
                e = {"before": before, "wrong": wrong}
            elif kind == "zip":
                pe = RadsPatchElement(sv)
                st, r = env.call(lambda: [[a, b] for a, b in zip(pe.fspaths(**kw), pe.relpaths(**kw))])
                out = r if st == "ok" else []
                st2, r = env.call(lambda: [[a, b] for a, b in pe.paths(**kw)])
                e = {"pairs": sorted(r) if st2 == "ok" else []}
                out = sorted(out)
            else:
                pe = RadsPatchElement(sv)
                st, r = env.call(lambda: list(getattr(pe, kind)(**kw)))
                out = ([loc(a) + [b] for a, b in r] if kind == "paths" else [loc(a) for a in r] if kind == "fspaths" else r) if st == "ok" else []
            ev.append(dict(e, op=kind, sel=sel, status=st, out=out))
    return {"lines": case["lines"], "name": case["name"], "version": case["version"], "files": files, "ev": ev}
