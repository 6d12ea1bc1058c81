"""C33: commands refuse what they cannot do, and write only where told"""
import json
import os
import random
import shutil

from vlib import waddrv

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): commands specified over a working directory, a storage and hash lists and checked on small trees; generated histories replayed on the real command line, states validated"
NOTE = ("Cli.tla gives, for each command and state, what prevents it and its exact effect; TLC checks on all small trees that refused commands change nothing, that "
        "inputs are kept and that outputs stay where told. Histories it generates (commands, files made and removed in between) run through the real command "
        "line, and the whole tree, the storage and the hash lists are compared with the specification after each command.")
RULE = ("trees of files of every kind at the places commands look at (also hidden and doubly suffixed names), histories of 8 commands with all options, spelled with "
        "relative, absolute or environment-given locations; non-trivial: a command is refused and another one has an effect")
ASSUMPTIONS = ["which exit status or message a refusal has is not considered", "components not found given to hashes-guess are not considered"]
TRACE = "Trace_C33"
ELEMS = {"c1": "client", "g1": "game", "g2": "game"}


def designs(g):
    yield "MC_Cli", "MC_Cli_thorough.cfg" if g.thorough else "MC_Cli.cfg", {"workers": 4, "timeout": 900, "heap": "6g" if g.thorough else "2g"}


def cases(g):
    rng = g.rng
    scen = g.scenarios("MC_Cli", "MC_Cli_gen.cfg", simulate=g.pick(420, 3000), depth=90)
    rng.shuffle(scen)
    n = 0
    for s in scen[:g.pick(400, 3000)]:
        n += 1
        wads = [f["p"] for f in s["files"] if f["k"]["what"] == "wad" and f["p"][-1].endswith((".wad", ".wad.client"))]
        if len(wads) > 1 and rng.random() < .5:
            # archives with common names to one place
            blank = {"cmd": "wad-extract", "unk": "", "hl": [], "ins": [], "meths": [], "comps": [], "arg": "", "out": rng.choice([["d", "o"], ["new"], ["new", "x"]])}
            at = rng.randrange(len(s["ops"]))
            s["ops"][at:at] = [{"o": "run", "c": dict(blank, **{"in": p, "flag": rng.random() < .6})} for p in rng.sample(wads, 2)]
        yield {"files": s["files"], "dirs": s["dirs"], "ops": [dict(o, n=rng.randrange(1 << 20)) for o in s["ops"]], "salt": n, "version": rng.choice([[3, 1], [3, 3], [2, 0], [3, 4]])}


def nontrivial(case, trace):
    ops = [e for e in trace["ev"] if e["op"] == "run"]
    return any(e["status"] != "ok" for e in ops) and any(a["after"] != b["after"] for a, b in zip(trace["ev"], trace["ev"][1:]))


class World:
    """Contents: archives and their entries, meshes, BIN files, lists"""

    def __init__(self, salt, version):
        rng = random.Random(salt)
        word = lambda: "".join(rng.choice("bcdfghjklmnpqrstvwxz") for _ in range(9))   # noqa
        base = "plugins/rcp-fe-lol-x/global/default/"
        names = {k: f"{base}{word()}" + rng.choice([".js", ".html", ".css"]) for k in ("n1", "n2", "n3")}
        clues = {"w1": {"n1": [], "n2": ["n3"]}, "w2": {"n2": ["n1", "n3"], "n3": []}, "w3": {"n3": ["n2", "n1"], "n1": []}}
        self.names, self.wads, self.contents, self.entries = names, {}, {}, {}
        for w, es in clues.items():
            entries, spec = [], []
            for k, (n, cs) in enumerate(es.items()):
                data = f"{w} {n} {word()}\n" + "".join('x = "/fe/lol-x/%s";\n' % names[c].rsplit("/", 1)[1] for c in cs)
                data = data.encode()
                h = waddrv.lcu_hash(names[n])
                kind = rng.choice(["raw", "gz"] + (["zstd"] if version[0] == 3 else []))
                entries.append({"h": h, "kind": kind, "data": data, "sum": waddrv.xxhash.xxh3_64_intdigest(data)})
                self.entries[data] = f"{w}/{names[n]}"
                spec.append({"n": names[n], "p": names[n].split("/"), "u": f"{h:016x}", "clues": [names[c] for c in cs]})
            self.wads[w] = spec
            self.contents[w] = waddrv.build({"version": version, "entries": entries}, rng)[0]
        import struct
        self.skns, self.objs = {"s1": ["x", "y"], "s2": ["x"]}, {}
        for s, subs in self.skns.items():
            d = b"\x33\x22\x11\x00" + struct.pack("<HHI", 2, 1, len(subs))
            for i, sub in enumerate(subs):
                d += sub.encode().ljust(64, b"\0") + struct.pack("<IIII", i * 3, 3, i * 3, 3)
            d += struct.pack("<II", 3 * len(subs), 3 * len(subs))
            d += b"".join(struct.pack("<H", i) for i in range(3 * len(subs)))
            for i in range(3 * len(subs)):
                d += struct.pack("<fff4B4f3f2f", i, salt, len(subs), 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, .5, .5)
            self.contents[s] = d
        self.contents["b1"] = b"PROP" + struct.pack("<III", 2, 0, 1) + struct.pack("<I", 0x11223344) + struct.pack("<IIH", 4 + 2, 0x55667788, 0)
        self.contents["b2"] = b"PROP" + struct.pack("<III", 3, 0, 0)
        self.lists = {"l1": [names["n1"]], "l2": []}
        for l, ps in self.lists.items():
            self.contents[l] = "".join(f"{waddrv.lcu_hash(p):016x} {p}\n" for p in ps).encode()
        self.contents["j1"] = b"\xff\xfejunk\n\x00\xe9 is neither\n"
        self.what = {"w": "wad", "s": "skn", "b": "bin", "l": "list", "j": "junk"}
        self.tokens = {d: {"what": self.what[i[0]], "id": i} for i, d in self.contents.items()}
        self.tokens.update({d: {"what": "entry", "id": n} for d, n in self.entries.items()})

    def spec(self):
        return {"wads": self.wads, "skns": self.skns, "lists": self.lists,
                "comps": [[f"game=8.{v}", [f"g{v}"]] for v in (1, 2)] + [["client=8.1", ["c1"]], ["patch=8.1", ["c1", "g1"]]],
                "elems": {"c1": {"ext": "lcu", "id": "w3"}, "g1": {"ext": "game", "id": "w1"}, "g2": {"ext": "game", "id": "w1"}}}


class Driver:
    def __init__(self, case, env):
        import cdtb.hashes as H
        from cdtb.sknfile import SknFile
        from vlib.guessdrv import Guessing
        from vlib.histdrv import PatcherHistory
        self.case, self.env, self.H = case, env, H
        self.w = World(case["salt"], case["version"])
        w, names = self.w, self.w.names
        self.d = Guessing(env, {"lcu": [[waddrv.lcu_hash(names["n2"]), names["n2"]]], "game": [[waddrv.lcu_hash(names["n3"]), names["n3"]]]}, [])
        # lists of the converters
        self.lists = [str(H.default_hash_dir / f"hashes.{n}.txt") for n in ("binentries", "binfields", "binhashes", "bintypes", "rst", "rst.xxh64", "rst.xxh3")]
        for f in self.lists:
            open(f, "w").close()
        mid = {"c1": [8, 1], "g1": [8, 1], "c2": [8, 2], "g2": [8, 2]}
        files = {m: [{"path": {"c": "Plugins/x/default-assets.wad", "g": "DATA/FINAL/x.wad.client"}[m[0]], "data": w.contents["w3" if m[0] == "c" else "w1"]}] for m in mid}
        self.h = PatcherHistory({"manifests": mid, "files": files, "now": 1700000000, "salt": case["salt"],
                                 "initial": {"live": [{"client": "c1", "game": "g1"}, {"client": "c2", "game": "g2"}]}}, env)
        self.h.advertise("live", "c2", "g2")
        self.elem_files = {}
        self.dir = env.path("work")
        os.makedirs(self.dir)
        for f in case["files"]:
            self.make(f["p"], f["k"])
        for p in case["dirs"]:
            os.makedirs(os.path.join(self.dir, *p), exist_ok=True)
        # texts of meshes: another property decides them
        for s, subs in w.skns.items():
            p = env.path(f"{s}.skn")
            with open(p, "wb") as f:
                f.write(w.contents[s])
            skn = SknFile(p)
            for e in skn.entries:
                w.tokens[skn.to_obj(e).encode()] = {"what": "obj", "id": f"{s}/{e['name']}.obj"}
            os.remove(p)

    def make(self, p, k):
        p = os.path.join(self.dir, *p)
        if k["what"] == "dir":
            os.makedirs(p)
            return
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(self.w.contents[k["id"]])

    def state(self):
        files, dirs = [], []
        for path, dn, fn in os.walk(self.dir):
            rel = os.path.relpath(path, self.dir)
            rel = [] if rel == "." else rel.split("/")
            if os.path.isfile(os.path.join(path, "cdragon/files.exported.txt")):
                files.append([rel, {"what": "export", "id": rel[-1]}])
                dn[:] = []
                continue
            dirs.append(rel)
            for n in fn + [x for x in dn if os.path.islink(os.path.join(path, x))]:
                p = os.path.join(path, n)
                tok = {"what": "link", "id": ""}
                if not os.path.islink(p):
                    with open(p, "rb") as f:
                        data = f.read()
                    tok = self.w.tokens.get(data, {"what": "?", "id": ""})
                if rel[-1:] == ["unknown"]:
                    n = n.split(".")[0]
                files.append([rel + [n], tok])
        # elements: all their files are there, or some
        got = []
        have = {}
        for path, _, fn in os.walk(self.h.root):
            if f"{os.sep}cdtb{os.sep}" in path + os.sep and f"{os.sep}files{os.sep}" in path + os.sep:
                parts = os.path.relpath(path, self.h.root).split(os.sep)
                for n in fn:
                    q = os.path.join(path, n)
                    with open(q, "rb") as f:
                        have[tuple(parts), n] = f.read()
        for name in ELEMS:
            i = 0 if name.endswith("1") else 1
            rel = self.h.releases("live")[0][i][0]
            want = {f["path"]: b"".join(f["chunks"]) for f in self.h.files[name]}
            found = {}
            for (parts, n), data in have.items():
                full = "/".join(parts + (n,))
                for path in want:
                    if f"/{rel}/" in full and full.endswith("/" + path):
                        found[path] = data
            if found:
                got.append(name if found == want else name + "?")
        paths = [{p for _, p in self.d.file_pairs(k)} for k in ("lcu", "game")]
        # the tree itself is compared as sets
        return {"files": sorted(files, key=lambda f: f[0]), "dirs": sorted(dirs), "lcu": sorted(paths[0]), "game": sorted(paths[1]), "got": sorted(got)}

    def path(self, p, n):
        rel = os.path.join(*p)
        return [rel, rel, os.path.join(self.dir, rel), "./" + rel][n % 4]

    def args(self, c, n):
        """Command line, with its options anywhere"""
        r = random.Random(n)
        # words which mean nothing, near those which do
        near = {"grop": ["grop", "num", "Grep", "", "skin", "number", "skin_num", "grep numbers"], "foo": ["foo", "game", "Game=8.1", "patch:8.1", "game=x", "8.1", "=8.1", "client-8.1"],
                "x": ["x", "9.x", "9,1", "v9.1"], "maybe": ["maybe", "Only", "n", "none"]}
        word = lambda w: r.choice(near.get(w, [w]))   # noqa
        opts, pos, env = [], [], {}
        cmd = c["cmd"]
        store = ["-s", self.h.root] if r.random() < .6 else ["--storage=patcher:" + self.h.root]
        if cmd in ("download", "files", "versions", "export", "hashes-guess"):
            if r.random() < .3:
                env["CDTB_STORAGE"] = self.h.root
            else:
                opts.append(store)
            if r.random() < .2:
                opts.append(["--patchline", "live"])
        if c["in"]:
            pos.append(self.path(c["in"], r.randrange(4)))
        if cmd == "export":
            out = self.path(c["out"], r.randrange(3))
            opts.append(["--full"])
            if c["out"] and r.random() < .3:
                env["CDTB_EXPORT"] = out
            else:
                opts.append([r.choice(["-o", "--output"]), out])
            if c["flag"]:
                opts.append(["--lazy"])
            pos.append(c["arg"])
        elif cmd == "hashes-guess":
            if c["arg"] == "list":
                opts.append(["--list-methods"])
            if c["meths"]:
                opts.append([r.choice(["-m", "--methods"]), r.choice([",", ", "]).join(map(word, c["meths"]))])
            if c["flag"]:
                opts.append([r.choice(["-n", "--dry-run"])])
            pos += [self.path(p, r.randrange(4)) for p in c["ins"]] + c["comps"]
            r.shuffle(pos)
        elif cmd in ("download", "files"):
            pos += map(word, c["comps"])
            if cmd == "files" and r.random() < .4:
                opts.append(["-r"])
        elif cmd == "versions":
            pos.append(r.choice(["foo", "patches", "Game", "lcu"]) if c["arg"] == "foo" else c["arg"])
            if r.random() < .3:
                opts.append(["-a"])
        elif cmd == "bin-dump":
            if c["flag"]:
                opts.append([r.choice(["-j", "--json"])])
            if c["arg"]:
                opts.append([r.choice(["-V", "--patch-version"]), word(c["arg"])])
        elif cmd in ("wad-extract", "wad-list", "skn-extract"):
            if c["out"]:
                opts.append([r.choice(["-o", "--output"]), self.path(c["out"], r.randrange(3))])
            if c["unk"]:
                opts.append([r.choice(["-u", "--unknown"]), word(c["unk"])])
            if c["hl"]:
                opts.append([r.choice(["-H", "--hashes"]), self.path(c["hl"], r.randrange(4))])
            if c["flag"] and cmd == "wad-extract":
                opts.append(["--lazy"])
        r.shuffle(opts)
        k = r.randrange(len(opts) + 1)
        args = [x for o in opts[:k] for x in o] + pos + [x for o in opts[k:] for x in o]
        return ["-v"] * r.choice([0, 0, 0, 1, 2]) + ([] if cmd == "help" else [r.choice(["foo", "wad", "Download", "wad_list", "hashes-guesses"])] if cmd == "foo" else [cmd]) + args, env

    def run(self):
        import cdtb.arenadata
        import cdtb.tftdata
        import cdtb.wad
        from vlib import guard
        with guard.disabled():
            start = self.state()
        ev = [{"op": "user", "after": start}]
        saved = cdtb.tftdata.TftTransformer.export, cdtb.arenadata.ArenaTransformer.export
        cdtb.tftdata.TftTransformer.export = cdtb.arenadata.ArenaTransformer.export = lambda *a, **k: None
        os.chdir(self.dir)
        try:
            with self.h.cdn, self.h.clock:
                for o in self.case["ops"]:
                    self.h.clock.now += 5
                    if o["o"] != "run":
                        with guard.disabled():
                            p = os.path.join(self.dir, *o["p"])
                            if o["o"] == "make":
                                if not os.path.lexists(p) and os.path.isdir(os.path.dirname(p)):
                                    self.make(o["p"], o["k"])
                            elif os.path.isfile(p):
                                os.remove(p)
                            ev.append({"op": "user", "after": self.state()})
                        continue
                    args, env = self.args(o["c"], o["n"])
                    self.d.reload()
                    cdtb.wad._hash_to_guessed_extensions.clear()
                    for k in ("CDTB_STORAGE", "CDTB_EXPORT"):
                        os.environ.pop(k, None)
                    os.environ.update(env)
                    self.env.op_timeout = 60
                    st, out, err = self.env.cli(args)
                    for k in env:
                        os.environ.pop(k, None)
                    with guard.disabled():
                        ev.append({"op": "run", "c": o["c"], "args": [a.replace(self.env.dir, "") for a in args], "status": "ok" if st == "ok" else "exit" if st.startswith("exit") else "raised",
                                   "how": st, "printed": bool(out.strip()), "after": self.state()})
        finally:
            cdtb.tftdata.TftTransformer.export, cdtb.arenadata.ArenaTransformer.export = saved
            with guard.disabled():
                self.d.cleanup()
                for f in self.lists:
                    os.remove(f)
        return {"world": self.w.spec(), "start": start, "ev": ev}


def run(case, env):
    from vlib import guard
    with guard.disabled():
        d = Driver(case, env)
    return d.run()


def extra_coverage(cases, traces):
    count = {}
    for t in traces:
        for a, b in zip(t["ev"], t["ev"][1:]):
            if b["op"] == "run":
                k = b["c"]["cmd"] + (" refused" if b["status"] != "ok" else " with effect" if a["after"] != b["after"] else " ok")
                count[k] = count.get(k, 0) + 1
    return {"commands": dict(sorted(count.items()))}
