"""C30: a storage location resolves to the configured storage"""

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): resolution of storage locations specified and checked; configurations of the model and random ones opened by the real code (library, command line, environment)"
NOTE = ("The resolution (directory, configuration file, patcher layout, type:path, plain path, --patchline) is a TLA+ function, checked by TLC for all "
        "configurations of one directory. Its configurations and random file trees are opened by Storage.from_path and by commands; the type, location and "
        "options of the storage in use are compared.")
RULE = "all combinations of configuration keys and ways to name them; random trees with several configuration files; non-trivial: a configuration file is used"
ASSUMPTIONS = ["configured values have the documented types", "the obsolete 'region' option (documented, not implemented) is not considered"]

CONF = "cdtb.storage.conf"


def designs(g):
    yield "MC_Conf", "MC_Conf.cfg", {"workers": 4}


def random_conf(rng):
    k = {"ok": rng.random() > .08, "has": [], "type": "", "path": [], "abs": False, "patchline": "", "symlinks": True, "ccd": "", "url": "", "cdn": ""}

    def put(key, p, **kw):
        if rng.random() < p:
            k["has"].append(key)
            k.update(kw)
    put("type", .92, type=rng.choice(["patcher", "patcher", "rads", "rads", "Patcher", "x", ""]))
    put("path", .6, path=rng.choice([["."], [".."], ["a"], ["..", "e", "f"], ["a", "..", "b"], ["x", ".", "y"]]), abs=rng.random() < .2)
    put("patchline", .4, patchline=rng.choice(["pbe", "live"]))
    if k["abs"]:
        k["path"] = [x for x in k["path"] if x != ".."]
    put("symlinks", .4, symlinks=rng.random() < .5)
    put("ccd", .3, ccd=rng.choice(["cc.json", "http://x/y"]))
    put("url", .25, url=rng.choice(["http://u/", "http://v/x/"]))
    put("cdn", .25, cdn=rng.choice(["default", "kr", "pbe"]))
    return k


def cases(g):
    rng = g.rng
    scen = g.scenarios("MC_Conf", "MC_Conf_gen.cfg", simulate=g.pick(700, 6000), depth=12)
    rng.shuffle(scen)
    for s in scen[:g.pick(700, 6000)]:
        ops = [{"by": rng.choice(["api", "cli", "env"]) if s["opt"] == "" else rng.choice(["cli", "env"]), "input": s["input"], "opt": s["opt"]}]
        yield {"fs": dict(s["fs"], files=[]), "cwd": [], "ops": ops}
    for _ in range(g.pick(300, 3000)):
        dirs = [["d"], ["d", "a"], ["e"], ["rads:q"], ["w"]]
        channels = [d for d in dirs if rng.random() < .3]
        confs = []
        for d in dirs:
            if rng.random() < .5:
                confs.append([d + [CONF], random_conf(rng)])
        for p in (["my.conf"], ["d", "other.json"], ["rads:file"]):
            if rng.random() < .4:
                k = random_conf(rng)
                if len(p) == 1:
                    # a path going out of the scratch directory would not be seen
                    k["path"] = [x for x in k["path"] if x != ".."]
                confs.append([p, k])
        cwd = rng.choice([[], [], ["d"], ["w"]])
        ops = []
        for _ in range(rng.choice([2, 3, 5])):
            t = rng.choice(dirs + [c[0] for c in confs] + [["missing"], ["d", "none"]])
            up = [".."] * len(cwd)
            whole = up + t
            typ, rest = "", whole
            if ":" in t[0]:
                if not up:
                    typ, r = t[0].split(":")
                    rest = [r] + t[1:]
                else:
                    continue
            elif rng.random() < .3:
                typ = rng.choice(["rads", "patcher", "Rads", "foo"])
                whole = [typ + ":" + (up + t)[0]] + (up + t)[1:]
            opt = rng.choice(["", "", "live", "pbe"])
            by = rng.choice(["cli", "env"] if opt else ["api", "api", "cli", "env"])
            if rng.random() < .08:
                by = "default"
            ops.append({"by": by, "input": {"type": typ, "whole": whole, "rest": rest}, "opt": opt})
        yield {"fs": {"dirs": dirs, "channels": channels, "confs": confs, "files": []}, "cwd": cwd, "ops": ops}


def nontrivial(case, trace):
    return bool(case["fs"]["confs"])


def run(case, env):
    import json
    import os
    from vlib import guard
    fs = case["fs"]
    root = os.path.realpath(env.dir)
    with guard.disabled():
        for d in fs["dirs"]:
            os.makedirs(env.path(*d), exist_ok=True)
        for d in fs["channels"]:
            os.makedirs(env.path(*d, "channels"), exist_ok=True)
        for p, k in fs["confs"]:
            c = {}
            for key in k["has"]:
                if key == "path":
                    c["path"] = ("" if not k["abs"] else root + "/") + "/".join(k["path"])
                elif key == "symlinks":
                    c["use_extract_symlinks"] = k["symlinks"]
                elif key == "ccd":
                    c["clientconfig_data"] = k["ccd"]
                else:
                    c[key] = k[key]
            with open(env.path(*p), "w") as f:
                f.write(json.dumps(c) if k["ok"] else "{" if len(k["has"]) % 2 else "")
    cwd = env.path(*case["cwd"]) if case["cwd"] else env.dir
    os.chdir(cwd)
    from cdtb.storage import Storage
    from cdtb.rads import RadsStorage
    urls = {RadsStorage.URL_DEFAULT: "default", RadsStorage.URL_KR: "kr", RadsStorage.URL_PBE: "pbe"}
    ev = []
    for o in case["ops"]:
        text = "/".join(o["input"]["whole"])
        got = []
        if o["by"] == "api":
            st, s = env.call(Storage.from_path, text)
            got = [s]
        else:
            args = ["versions", "patch"]
            os.environ.pop("CDTB_STORAGE", None)
            if o["by"] == "cli":
                args += ["-s", text]
                os.environ["CDTB_STORAGE"] = "rads:elsewhere"
            elif o["by"] == "env":
                os.environ["CDTB_STORAGE"] = text
            if o["opt"]:
                args += ["--patchline", o["opt"]]
            real = Storage.patches
            Storage.patches = lambda self, *a, **k: got.append(self) or iter(())
            try:
                st, _, _ = env.cli(args)
            finally:
                Storage.patches = real
            os.environ.pop("CDTB_STORAGE", None)
            if st == "ok" and not got:
                st = "no-storage"
        out = {}
        if st == "ok":
            s = got[0]
            p = os.path.relpath(os.path.realpath(s.path), root)
            rads = s.storage_type == "rads"
            out = {"type": s.storage_type, "path": [] if p == "." else p.split("/"), "patchline": "" if rads else s.patchline,
                   "symlinks": True if rads else bool(s.use_extract_symlinks), "ccd": "" if rads else (s.clientconfig_data or ""),
                   "url": urls.get(s.url, s.url) if rads else ""}
        ev.append({"op": "open", "by": o["by"], "input": o["input"], "opt": o["opt"], "status": st, "out": out})
    return {"fs": fs, "cwd": case["cwd"], "ev": ev}
