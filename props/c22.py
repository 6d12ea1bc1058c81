"""C22: patch export commands choose the right patches and predecessors"""
import os
import random
import shutil

from vlib import waddrv

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): plans of export commands specified and checked on all small histories; generated histories replayed on the real command line, outcomes validated"
NOTE = ("TLC checks that walking the listing gives the declarative plan for every small history of stored patches and directories. Histories it "
        "generates are performed on a real patcher storage behind a fake CDN; commands run through the real command line and exporter, and what each "
        "export has been compared with is observed from the files it leaves out or links. TFT and Arena data are not generated.")
RULE = ("histories from TLC (patches stored one by one with sub-patches, directories made and removed) with versions around digit boundaries, unrelated "
        "and unknown directories, and export commands over all argument combinations, with or without links, advertised newer patches, on live and PBE; "
        "non-trivial: at least one command exports something")
ASSUMPTIONS = ["an export is not compared with the same patch", "directories are named after canonical versions or something else entirely",
               "an unknown version directory may be ignored or refused"]
TRACE = "Trace_C22"
LINE = {False: "live", True: "pbe"}
NONE = [0, 0]
POOL = [[1, 9], [7, 24], [8, 1], [8, 2], [8, 9], [8, 10], [8, 24], [9, 1], [9, 2], [9, 9], [9, 10], [9, 13]]
JUNK = ["foo", "cdragon", "9.x", ".git", "latest", "x9.1", "9-1", "tmp 8"]


def designs(g):
    yield "MC_ExportPlan", "MC_ExportPlan_thorough.cfg" if g.thorough else "MC_ExportPlan.cfg", {"workers": 4, "timeout": 600}


def vtext(v):
    return ".".join(map(str, v)) if v else "main"


def gen_cmd(rng, vs, multi, first=None, target=None):
    """Arguments of a command, as an abstract command"""
    r = rng.random
    unknown = [[5, 5], [8, 3], [10, 1]]
    cmd = {"patch": {"kind": "", "v": []}, "previous": {"kind": "default", "v": []}, "first": {"kind": "", "v": []},
           "links": r() < .4, "lazy": r() < .2}
    if multi:
        cmd["first"] = {"kind": "version", "v": first or rng.choice(vs + unknown)}
        if r() < .06:
            cmd["first"] = {"kind": "", "v": []}
        elif r() < .05:
            cmd["first"] = {"kind": "other", "v": [], "text": rng.choice(["x", "9", "latest", "8.", ""])}
        if r() < .08:
            cmd["previous"] = rng.choice([{"kind": "none", "v": []}, {"kind": "version", "v": rng.choice(vs)}])
        cmd["api"] = cmd["previous"]["kind"] == "default" and cmd["first"]["kind"] == "version" and r() < .25
        if cmd["api"]:
            cmd["links"] = rng.choice([True, False, "default"])
            if r() < .3:
                cmd["first"] = {"kind": "version", "v": NONE}
    else:
        cmd["patch"] = {"kind": "version", "v": target or rng.choice(vs)}
        if r() < .25:
            cmd["patch"] = {"kind": "latest", "v": []}
        elif r() < .1:
            cmd["patch"] = rng.choice([{"kind": "version", "v": rng.choice(unknown)}, {"kind": "other", "v": [], "text": rng.choice(["x", "9", "8.", "9.1.3", "Latest"])}])
        if r() < .55:
            cmd["previous"] = rng.choice([{"kind": "none", "v": []}, {"kind": "version", "v": rng.choice(vs)}, {"kind": "version", "v": rng.choice(vs)},
                                          {"kind": "version", "v": rng.choice(unknown)}, {"kind": "other", "v": [], "text": rng.choice(["x", "latest", "8"])}])
        if r() < .06:
            cmd["first"] = {"kind": "version", "v": rng.choice(vs)}
        cmd["advance"] = r() < .35
    return cmd


def cases(g):
    rng = g.rng
    scen = g.scenarios("MC_ExportPlan", "MC_ExportPlan_gen.cfg", simulate=g.pick(400, 4000), depth=60)
    rng.shuffle(scen)
    for s in scen[:g.pick(220, 2400)]:
        vs = sorted(rng.sample(POOL, 5))
        cv = lambda v: vs[v[1] - 1]
        ops = []
        for o in s["ops"]:
            if o["o"] == "store":
                ops.append({"o": "store", "v": cv(o["v"]), "subs": rng.choice([1, 1, 2, 3])})
            elif o["o"] in ("mkdir", "rmdir"):
                ops.append({"o": o["o"], "name": vtext(cv(o["v"]))})
            elif o["o"] == "update":
                ops.append({"o": "cmd", "cmd": gen_cmd(rng, vs, True, first=cv(o["v"]))})
            else:
                ops.append({"o": "cmd", "cmd": gen_cmd(rng, vs, False, target=cv(o["v"]) if rng.random() < .8 else None)})
            if rng.random() < .12:
                ops.append({"o": rng.choice(["mkdir", "mkdir", "file"]), "name": rng.choice(JUNK)})
            if rng.random() < .06:
                ops.append({"o": rng.choice(["mkdir", "file"]), "name": rng.choice(["main", "5.5", "10.1", "8.3"])})
            if rng.random() < .03:
                ops.append({"o": "nodir"})
        ops.append({"o": "cmd", "cmd": gen_cmd(rng, vs, rng.random() < .6)})
        yield {"pbe": False, "ops": ops, "vs": vs, "cached": rng.random() < .5}
    for _ in range(g.pick(15, 60)):
        ops = [{"o": "store", "v": [], "subs": rng.choice([1, 2])}]
        if rng.random() < .5:
            ops.append({"o": "mkdir", "name": "main"})
        for _ in range(2):
            multi = rng.random() < .5
            cmd = gen_cmd(rng, [[]], multi)
            if cmd["first"]["kind"] == "version":
                cmd["first"] = {"kind": "version", "v": []}
            if cmd["previous"]["kind"] == "version" and cmd["previous"]["v"] == []:
                cmd["previous"] = {"kind": "none", "v": []}
            ops.append({"o": "cmd", "cmd": cmd})
        yield {"pbe": True, "ops": ops, "vs": [[]], "cached": rng.random() < .5}


def nontrivial(case, trace):
    return any(e.get("done") for e in trace["ev"])


class Driver:
    def __init__(self, case, env):
        import cdtb.hashes as H
        from vlib.histdrv import PatcherHistory
        self.case, self.env = case, env
        self.line = LINE[case["pbe"]]
        # all manifests which may be needed: those of store operations and of advertised releases
        self.plan, manifests, files = [], {}, {}
        self.known = {}
        cur, n = None, 0

        def new(v, stale):
            nonlocal n
            rel = {"client": f"c{n}"}
            manifests[f"c{n}"] = v
            files[f"c{n}"] = self.files_of(v, n, stale)
            rel["game"] = f"g{n}"
            manifests[f"g{n}"] = v
            n += 1
            return rel
        for o in case["ops"]:
            if o["o"] == "store":
                rels = [new(o["v"], k < o["subs"] - 1) for k in range(o["subs"])]
                self.plan.append(rels)
                cur = o["v"]
            elif o["o"] == "cmd" and o["cmd"].get("advance"):
                later = [v for v in case["vs"] if cur is None or v >= cur]
                # advertised: a newer patch or a sub-patch of the last one
                self.plan.append([new(later[len(self.plan) % len(later)] if later else cur, False)])
            else:
                self.plan.append(None)
        self.fallback = new(case["vs"][0], False)
        self.h = PatcherHistory({"manifests": manifests, "files": files, "now": 1700000000, "salt": 1}, env)
        H.hashfile_lcu.hashes = self.known
        self.last = None
        self.out = env.path("out")
        os.makedirs(self.out)

    def files_of(self, v, n, stale):
        # pairs of patches have a common file: an export compared with a patch leaves it out
        rng = random.Random(n)
        ret = [{"path": "own.txt", "data": f"own {vtext(v)} {n}"}]
        entries = []
        for w in self.case["vs"]:
            if w != v:
                a, b = sorted([v, w])
                path = f"p{vtext(a)}-{vtext(b)}.txt"
                self.known[waddrv.lcu_hash(path)] = path
                entries.append({"h": waddrv.lcu_hash(path), "kind": "zstd",
                                "data": (f"stale {n}" if stale else f"pair {path}").encode()})
        for e in entries:
            e["sum"] = waddrv.xxhash.xxh3_64_intdigest(e["data"])
        if entries:
            ret.append({"path": "pairs.wad", "data": waddrv.build({"version": [3, 1], "entries": entries}, rng)[0]})
        return ret

    def store(self, rel, cached):
        import json
        self.h.clock.now += 5
        self.ts = int(self.h.clock.now)
        base = os.path.join(self.h.root, "cdtb/releases", self.line)
        d = f"{base}/{self.ts}"
        os.makedirs(d)
        with open(f"{d}/release.json", "w") as f:
            json.dump({f"{n}_patch_url": self.h.url(m) for n, m in rel.items()}, f)
        for n, m in rel.items():
            if cached:
                with open(f"{d}/patch_version.{n}", "w") as f:
                    f.write(vtext(self.h.case["manifests"][m]) + "\n")
        with open(f"{base}/latest.timestamp", "w") as f:
            f.write(f"{self.ts}\n")
        self.last = rel

    def stored(self):
        """Versions with a client"""
        ret = []
        for r in self.h.releases(self.line)[0]:
            v = self.h.case["manifests"].get(r[1])
            if v is not None and v not in ret:
                ret.append(v)
        return ret

    def dirs(self):
        ret = []
        if os.path.isdir(self.out):
            for name in sorted(os.listdir(self.out)):
                if os.path.isdir(os.path.join(self.out, name)):
                    if name == "main":
                        ret.append([])
                    elif all(x.isdigit() for x in name.split(".")) and len(name.split(".")) == 2:
                        ret.append([int(x) for x in name.split(".")])
        return ret

    def command(self, o, planned):
        from vlib import guard
        from vlib.faults import Counter, FsFaults
        env, cmd = self.env, o["cmd"]
        with guard.disabled():
            for name in os.listdir(self.out) if os.path.isdir(self.out) else ():
                p = os.path.join(self.out, name)
                if os.path.isdir(p):
                    shutil.rmtree(p)
                    os.mkdir(p)
            before = set(os.listdir(self.out)) if os.path.isdir(self.out) else None
            stored, dirs = self.stored(), self.dirs()
        if planned:
            rel = planned[0]
        else:
            rel = self.last or self.fallback    # nothing new, once something is stored
        adv = self.h.case["manifests"][rel["client"]]
        self.h.advertise(self.line, rel["client"], rel["game"])
        texts = lambda a: a.get("text", vtext(a["v"]) if a["kind"] == "version" else {"latest": "latest", "none": "none"}.get(a["kind"], ""))
        paths = []

        def log(label, path):
            paths.append(os.path.abspath(os.fsdecode(path)))
            return True
        import cdtb.tftdata
        import cdtb.arenadata
        saved = cdtb.tftdata.TftTransformer.export, cdtb.arenadata.ArenaTransformer.export
        cdtb.tftdata.TftTransformer.export = cdtb.arenadata.ArenaTransformer.export = lambda *a, **k: None
        try:
            with FsFaults(Counter(root=self.out + "/", match=log)):
                if cmd.get("api"):
                    from cdtb.export import CdragonRawPatchExporter
                    from cdtb.storage import PatchVersion

                    def api():
                        first = None if cmd["first"]["v"] == NONE else PatchVersion(vtext(cmd["first"]["v"]))
                        kw = {} if cmd["links"] == "default" else {"symlinks": cmd["links"]}
                        for x in CdragonRawPatchExporter.from_directory(self.h.storage(self.line, fresh=True), self.out, first, **kw):
                            x.process(overwrite=not cmd["lazy"])
                    st, _ = env.call(api)
                    status = "ok" if st == "ok" else "refused"
                else:
                    conf = self.h.root + ".conf"
                    args = ["export", "-s", self.h.root, "-o", self.out] + (["--patchline", "pbe"] if self.case["pbe"] else [])
                    args += ["-L"] if cmd["links"] else []
                    args += ["--lazy"] if cmd["lazy"] else []
                    p = cmd["previous"]
                    args += [] if p["kind"] == "default" else ["--full"] if p["kind"] == "none" else ["--previous=" + texts(p)]
                    args += ["--from=" + texts(cmd["first"])] if cmd["first"]["kind"] else []
                    args += [texts(cmd["patch"])] if cmd["patch"]["kind"] else []
                    st, out, err = env.cli(args)
                    status = "ok" if st == "ok" else "refused"
        finally:
            cdtb.tftdata.TftTransformer.export, cdtb.arenadata.ArenaTransformer.export = saved
        with guard.disabled():
            rels = self.h.releases(self.line)[0]
            if rels:
                self.last = {"client": rels[-1][1], "game": rels[-1][2]}
            return self.observe(cmd, stored, dirs, before, adv, rel, status, paths)

    def observe(self, cmd, stored, dirs, before, adv, rel, status, paths):
        done, strange, changed = {}, False, False
        names = sorted(os.listdir(self.out)) if os.path.isdir(self.out) else []
        if before is not None and not before <= set(names):
            changed = strange = True
        for name in names:
            p = os.path.join(self.out, name)
            if not os.path.isdir(p):
                if name not in (before or ()):
                    changed = strange = True
                continue
            if not os.listdir(p) and name in (before or ()):
                continue
            changed = True
            vs = [v for v in self.case["vs"] if vtext(v) == name]
            if not vs or not os.path.isfile(os.path.join(p, "cdragon/files.exported.txt")):
                strange = True
                continue
            v, with_ = vs[0], []
            for w in self.case["vs"]:
                if w != v:
                    a, b = sorted([v, w])
                    f = os.path.join(p, f"p{vtext(a)}-{vtext(b)}.txt")
                    if not os.path.lexists(f) or os.path.islink(f):
                        with_.append(w)
                        if os.path.islink(f) and os.path.basename(os.path.dirname(os.path.normpath(os.path.join(p, os.readlink(f))))) != vtext(w):
                            with_.append(NONE)
            own = os.path.join(p, "own.txt")
            if not os.path.isfile(own) or os.path.islink(own):
                strange = True
            done[name] = {"v": v, "prev": NONE if not with_ else with_[0] if len(with_) == 1 else [99, len(with_)]}
        order = []
        for q in paths:
            if q.startswith(self.out + "/"):
                top = q[len(self.out) + 1:].split("/")[0]
                if top in done and (not order or order[-1] != top):
                    order.append(top)
        if sorted(order) != sorted(done):
            # interleaved
            strange = strange or len(order) != len(done)
        c = {k: {"kind": cmd[k]["kind"], "v": cmd[k]["v"]} for k in ("patch", "previous", "first")}
        c["links"] = bool(cmd["links"])
        return {"op": "export", "cmd": c, "stored": stored, "dirs": dirs, "adv": [adv], "outdir": before is not None,
                "status": status, "done": [done[n] for n in order if n in done], "changed": changed, "strange": strange}

    def run(self):
        from vlib import guard
        ev = []
        with self.h.cdn, self.h.clock:
            for o, planned in zip(self.case["ops"], self.plan):
                self.h.clock.now += 5
                with guard.disabled():
                    p = os.path.join(self.out, o.get("name", "-"))
                    if o["o"] == "store":
                        if self.stored() and o["v"] and max(self.stored()) > o["v"]:
                            continue
                        for rel in planned:
                            self.store(rel, self.case["cached"])
                    elif o["o"] == "mkdir":
                        if not os.path.lexists(p):
                            os.makedirs(p)
                    elif o["o"] == "file":
                        if os.path.isdir(self.out) and not os.path.lexists(p):
                            with open(p, "w") as f:
                                f.write("x")
                    elif o["o"] == "rmdir":
                        if os.path.isdir(p):
                            shutil.rmtree(p)
                    elif o["o"] == "nodir":
                        shutil.rmtree(self.out, ignore_errors=True)
                if o["o"] == "cmd":
                    stored = self.stored()
                    cmd = o["cmd"]
                    # never compared with itself
                    tv = cmd["patch"]["v"] if cmd["patch"]["kind"] == "version" else None
                    if cmd["patch"]["kind"] and cmd["previous"]["kind"] == "version":
                        if tv == cmd["previous"]["v"] or cmd["patch"]["kind"] == "latest":
                            cmd = dict(cmd, previous={"kind": "default", "v": []})
                    if planned and stored and self.h.case["manifests"][planned[0]["client"]] < max(stored):
                        planned = None
                    e = self.command(dict(o, cmd=cmd), planned)
                    ev.append(e)
        return {"ev": ev}


def run(case, env):
    from vlib import guard
    from vlib.exportdrv import empty_hashes
    with guard.disabled():
        empty_hashes()
        d = Driver(case, env)
    return d.run()
