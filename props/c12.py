"""C12: patch version detection is right and its cache is transparent"""
import json
import os
import random
import sys

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): model of version files and of remembered answers checked exhaustively, replay of its behaviours and trace validation of queries on the real storages"
NOTE = ("TLC explores all sequences of queries, failures and losses of files for 2 releases, elements and patchlines, and the reading of all version "
        "files of 3 lines. Its behaviours and random histories are run on patcher and RADS storages (same and fresh storages, modules loaded again, "
        "listings) with a fake CDN: TLC computes the version each file states and decides each answer.")
RULE = ("version files in the documented formats with decoy lines, keys and files, versions of 2 to 4 numbers, files in several chunks or packages, "
        "shared by releases or in files of former releases, executables with version resources; failed requests, files removed from the CDN afterwards; "
        "non-trivial: a source queried at least twice")
ASSUMPTIONS = ["a version file states its version in one of the documented formats"]

VERSION_FORMS = ["rel", "relq", "rel1", "sq", "dq"]
KEYS = ["branch", "game-branch", "branchx", "other"]


def designs(g):
    yield "MC_VersionCache", "MC_VersionCache_thorough.cfg" if g.thorough else "MC_VersionCache.cfg", {"workers": 4, "timeout": 800}
    yield "MC_VersionCache", "MC_VersionCache_docs.cfg", {"workers": 4}


def vtext(v):
    return ".".join(map(str, v))


def yaml_text(lines, rng):
    out = []
    nl = rng.choice(["\n", "\n", "\r\n"])
    for x in lines:
        key = {"branch": "branch", "game-branch": "game-branch", "branchx": rng.choice(["branches", "xbranch", "game-branch2", "# branch", "game_branch", "- branch"]),
               "other": rng.choice(["build", "region_data", "version", "game-version", "servers"])}[x["key"]]
        v = vtext(x["v"])
        val = {"rel": f"Releases/{v}", "relq": f"\"Releases/{v}\"", "rel1": f"{rng.choice(['a/b', 'x-y', '1.2', '7.7/Old'])}/Release/{v}", "sq": f"'{v}'", "dq": f"\"{v}\"",
               "word": rng.choice(["Releases/develop", "'main'", "\"x\"", "Releases/9.9-pbe", "", "'9.9' # x"])}[x["form"]]
        out.append(" " * rng.choice([0, 0, 2, 4, 7]) + f"{key}: {val}")
    return nl.join(out) + (nl if rng.random() < .8 else "")


def meta_text(v, rng):
    data = {"version": vtext(v) + rng.choice([".123.4567+branch.releases-1-2.code.public", ".0", ".276", ".5-x"])}
    for k in ("name", "changelist", "old"):
        if rng.random() < .4:
            data[k] = rng.choice([{"version": "1.1.1"}, "2.2.2", 3, [4.5]])
    items = list(data.items())
    rng.shuffle(items)
    return json.dumps(dict(items), indent=rng.choice([None, 2]))


def random_v(rng, pool=None):
    return [rng.choice([1, 7, 9, 10, 14, 100]), rng.choice([0, 1, 2, 12, 24, 333])] + rng.choice([[], [], [1], [276, 1234]])


def bump(v):
    """Another version, as long as the first one"""
    return v[:1] + [{9: 8, 99: 98, 999: 998}.get(v[1], v[1] + 1)] + v[2:] if v else v


def random_line(rng, p=.45):
    return {"key": rng.choice(KEYS), "form": rng.choice(VERSION_FORMS + ["word"]), "v": random_v(rng)} if rng.random() > p else \
        {"key": rng.choice(["branch", "game-branch"]), "form": rng.choice(VERSION_FORMS), "v": random_v(rng)}


def patcher_case(rng, srcs, ops, shared=False):
    """srcs: [{"key": [line, release, elem], "src": {...}}]"""
    return {"t": "patcher", "srcs": srcs, "ops": ops, "salt": rng.randrange(2**30), "shared_ts": rng.random() < .5}


def cases(g):
    rng = g.rng
    for s in g.scenarios("MC_VersionCache", "MC_VersionCache_gen.cfg", simulate=g.pick(150, 2500), depth=30)[:g.pick(150, 2500)]:
        srcs = sorted(s["srcs"], key=lambda x: x["key"])
        ops = [{"o": o["o"], "p": [x["key"] for x in srcs].index(o["k"]), "how": o["how"] or "elem",
                "fail": rng.choice(["refuse", "status", "cut"]) if o["fail"] else ""} for o in s["ops"]]
        yield patcher_case(rng, srcs, ops)
    for _ in range(g.pick(250, 4000)):
        srcs = []
        nrel = rng.randint(1, 4)
        for line in ("live", "pbe"):
            for r in range(1, nrel + 1):
                for e in ("client", "game"):
                    if rng.random() < .15:
                        continue
                    prev = [x["src"] for x in srcs if x["key"][0] == "live" and x["key"][2] == e]
                    if line == "pbe":
                        src = {"kind": "main", "lines": [], "v": []}
                    elif prev and rng.random() < .3:
                        src = dict(rng.choice(prev))    # same manifest
                        if rng.random() < .5:       # or same file but for the version
                            src["v"] = bump(src["v"])
                            src["lines"] = [dict(x, v=bump(x["v"])) for x in src["lines"]]
                    elif e == "client":
                        src = {"kind": "yaml", "lines": [random_line(rng) for _ in range(rng.choice([1, 1, 2, 3, 5, 12]))], "v": []}
                    else:
                        src = {"kind": "meta", "lines": [], "v": random_v(rng)}
                    src.setdefault("rs", rng.randrange(1000))
                    srcs.append({"key": [line, r, e], "src": src})
        if srcs:
            yield patcher_case(rng, srcs, random_ops(rng, srcs))
    for _ in range(g.pick(200, 3000)):
        srcs = []
        pbe = rng.random() < .15
        for e in ("client", "game"):
            n = rng.randint(0, 4)
            for r in sorted(rng.sample(range(1, 100), n)):
                prev = [x["src"] for x in srcs if x["key"][2] == e and x["src"]["kind"] in ("yaml", "exe")]
                r_ = rng.random()
                if pbe:
                    src = {"kind": "main", "lines": [], "v": []}
                elif r_ < .12:
                    src = {"kind": "lost", "lines": [], "v": []}
                elif prev and r_ < .35:
                    src = dict(prev[-1], former=True)
                elif e == "client":
                    src = {"kind": "yaml", "lines": [random_line(rng, .7) for _ in range(rng.choice([1, 1, 2, 4]))], "v": []}
                else:
                    src = {"kind": "exe", "lines": [], "v": random_v(rng)}
                srcs.append({"key": ["rads", r, e], "src": src})
        if srcs:
            yield {"t": "rads", "srcs": srcs, "ops": random_ops(rng, srcs), "salt": rng.randrange(2**30), "pbe": pbe}


def random_ops(rng, srcs):
    ops = []
    for _ in range(rng.choice([3, 5, 8, 12])):
        r = rng.random()
        if r < .75:
            ops.append({"o": "query", "p": rng.randrange(len(srcs)), "how": rng.choice(["elem", "elem", "patch", "fresh", "process"]),
                        "fail": rng.choice(["refuse", "status", "cut", "cuteof"]) if rng.random() < .2 else ""})
        elif r < .88:
            ops.append({"o": "listing", "p": rng.randrange(len(srcs)), "how": rng.choice(["elem", "process"]), "fail": ""})
        else:
            ops.append({"o": "lose", "p": rng.randrange(len(srcs)), "how": "", "fail": ""})
    return ops


def nontrivial(case, trace):
    seen = [e["p"] for e in trace["ev"] if e["op"] == "query" and e["status"] == "ok"]
    return len(seen) > len(set(seen))


class Fresh:
    """The modules of the code under test, as loaded by another process"""

    def __enter__(self):
        from vlib import guard
        self.saved = {k: m for k, m in sys.modules.items() if k == "cdtb" or k.startswith("cdtb.")}
        for k in self.saved:
            del sys.modules[k]
        with guard.disabled():
            import cdtb.storage, cdtb.patcher, cdtb.rads  # noqa

    def __exit__(self, *a):
        for k in [k for k in sys.modules if k == "cdtb" or k.startswith("cdtb.")]:
            del sys.modules[k]
        sys.modules.update(self.saved)


def observed(v):
    if v is None:
        return {"k": "none", "v": []}
    s = str(v)
    if s == "main":
        return {"k": "main", "v": []}
    try:
        nums = [int(x) for x in s.split(".")]
        ok = s == ".".join(map(str, nums)) and all(0 <= x < 2**31 for x in nums)
    except ValueError:
        ok = False
    return {"k": "version", "v": nums} if ok else {"k": "other", "v": []}


class PatcherWorld:
    def __init__(self, case, env):
        from vlib import guard, rman
        from vlib.cdn import Cdn
        self.case = case
        self.root = env.path("store")
        self.cdn = Cdn()
        rng = random.Random(case["salt"])
        self.urls = {}      # index -> urls needed
        self.rid = {}
        manifests = {}      # content -> (url, bundle urls)
        mid = 0xE000000000000000
        releases = {}
        for i, x in enumerate(case["srcs"]):
            line, r, e = x["key"]
            src = x["src"]
            ident = json.dumps([e, src]) if src["kind"] != "main" else f"pbe{i}"
            if ident not in manifests:
                if src["kind"] == "yaml":
                    name, text = "system.yaml", yaml_text(src["lines"], random.Random(src.get("rs", i)))
                elif src["kind"] == "meta":
                    name, text = "content-metadata.json", meta_text(src["v"], random.Random(src.get("rs", i)))
                else:
                    name, text = {"client": "system.yaml", "game": "content-metadata.json"}[e], yaml_text([random_line(rng)], rng) if e == "client" else meta_text([1, 1], rng)
                decoy = {"system.yaml": ("content-metadata.json", meta_text(random_v(rng), rng)),
                         "content-metadata.json": ("system.yaml", yaml_text([{"key": "branch", "form": "rel", "v": random_v(rng)}], rng))}[name]
                b = rman.Release(random.Random(mid))
                b.next = len(manifests) * 0x10000
                data = text.encode()
                cuts = sorted(rng.randrange(len(data) + 1) for _ in range(rng.choice([0, 0, 1, 2]))) if data else []
                parts = [data[a:z] for a, z in zip([0] + cuts, cuts + [len(data)])]
                parts = [p for p in parts if p] or [b""]
                bid = b.new_bundle()
                files = [{"path": name, "chunks": parts}]
                for k, p in enumerate(parts):
                    if k and rng.random() < .5:
                        bid = b.new_bundle()
                    b.chunk(p, bid)
                for path, content in (decoy, ("sub/" + name, "branch: Releases/1.1\n"), (name + ".bak", "branch: 'x/1.1'\n")):
                    if rng.random() < .6:
                        content = content.encode()
                        b.chunk(content, bid)
                        files.append({"path": path, "chunks": [content]})
                rng.shuffle(files)
                m = b.manifest(files, [])
                url = rman.manifest_url(mid)
                mid += 1
                self.cdn.put(url, rman.encode(m, random.Random(rng.randrange(100))))
                bundles = []
                for bb in b.bundles:
                    self.cdn.put(rman.bundle_url(bb), b.bundle_data(bb))
                    bundles.append(rman.bundle_url(bb))
                manifests[ident] = (url, bundles)
            url, bundles = manifests[ident]
            self.urls[i] = [url] + bundles
            ts = 1600000000 + r * 1000 + (0 if case["shared_ts"] or line == "live" else 7)
            self.rid[i] = (line, ts)
            releases.setdefault((line, ts), {})[f"{e}_patch_url"] = url.replace("lol.dyn.", "lol.secure.dyn.") if rng.random() < .3 else url
        with guard.disabled():
            for (line, ts), data in releases.items():
                d = os.path.join(self.root, "cdtb/releases", line, str(ts))
                os.makedirs(d)
                with open(os.path.join(d, "release.json"), "w") as f:
                    json.dump(data, f)
        self.storages = {}

    def storage(self, line, how):
        from cdtb.patcher import PatcherStorage
        if how in ("fresh", "process"):
            return PatcherStorage(self.root, line)
        if line not in self.storages:
            self.storages[line] = PatcherStorage(self.root, line)
        return self.storages[line]

    def query(self, i, how):
        from cdtb.patcher import PatcherRelease, PatcherPatchElement
        line, ts = self.rid[i]
        name = self.case["srcs"][i]["key"][2]
        elem = PatcherRelease(self.storage(line, how), ts).element(name)
        if how == "patch":
            return PatcherPatchElement(elem).version
        return elem.patch_version()

    def group(self, i):
        return [j for j, x in enumerate(self.case["srcs"]) if x["key"][0] == self.case["srcs"][i]["key"][0]]

    def listing(self, i, how):
        line = self.case["srcs"][i]["key"][0]
        index = {(self.rid[j][1], self.case["srcs"][j]["key"][2]): j for j in self.group(i)}
        return [(index[e.elem.release.version, e.name], e.version) for e in self.storage(line, how).patch_elements(stored=True)]


class RadsVersions:
    SLN = {"client": ("league_client_sln", "league_client", "system.yaml"), "game": ("lol_game_client_sln", "lol_game_client", "League of Legends.exe")}

    def __init__(self, case, env):
        import zlib
        from vlib import guard, pebuild
        from vlib.cdn import Cdn
        from cdtb.rads import RadsStorage
        self.case = case
        self.root = env.path("store")
        self.cdn = Cdn()
        self.base_url = u = RadsStorage.URL_PBE if case["pbe"] else RadsStorage.URL_DEFAULT
        rng = random.Random(case["salt"])
        self.urls = {}
        former = {}     # element -> (path of the version file, content)
        os_dirs = []
        for i, x in enumerate(case["srcs"]):
            _, r, e = x["key"]
            src = x["src"]
            sln, project, name = self.SLN[e]
            v, pv = f"0.0.0.{r}", f"0.0.0.{r + rng.choice([0, 100])}"
            other = f"{project}_en_us"
            sm = ["RADS Solution Manifest", "1.0.0.0", sln, v]
            projects = [[project, pv, "0"], [other, pv, "10"]] + ([["zz_shared", pv, "0"]] if rng.random() < .4 else [])
            rng.shuffle(projects)
            sm.append(str(len(projects)))
            for a, b, c in projects:
                sm += [a, b, c, "0"]
            sm += ["1", "en_us", "0", "2", project, other]
            smu = f"{u}solutions/{sln}/releases/{v}/solutionmanifest"
            self.cdn.put(smu, "\r\n".join(sm).encode() + b"\r\n")
            self.urls[i] = [smu]
            os_dirs.append(f"solutions/{sln}/releases/{v}")
            base = f"projects/{project}/releases/{pv}"
            if src["kind"] in ("lost", "main"):
                continue
            if src.get("former") and e in former:
                path, data = former[e]
            else:
                path = f"{base}/files/{name}"
                data = yaml_text(src["lines"], rng).encode() if e == "client" else pebuild.executable(
                    [("CompanyName", "Riot Games"), ("FileVersion", vtext(src["v"][:2])), ("OriginalFilename", "x.exe"), ("ProductName", "LoL"), ("ProductVersion", vtext(src["v"]))][:: rng.choice([1, -1])],
                    wide=rng.random() < .5, fill=b"tail" * rng.randrange(3))
                former[e] = (path, data)
            entries = [(path, data)]
            for p in (f"{base}/files/a.txt", f"{base}/files/{name}.bak", f"{base}/files/x{name}"):
                if rng.random() < .5:
                    entries.append((p, b"branch: Releases/1.1\n"))
            rng.shuffle(entries)
            packs, lines = {}, ["PKG1"]
            for p, d in entries:
                z = rng.random() < .4
                stored = zlib.compress(d) if z else d
                pk = f"BIN_0x0000000{rng.choice([1, 2])}"
                buf = packs.setdefault(pk, bytearray(b"gap" * rng.randrange(3)))
                lines.append(f"/{p}{'.compressed' if z else ''},{pk},{len(buf)},{len(stored)},0")
                buf += stored
            pmu = f"{u}{base}/packages/files/packagemanifest"
            self.cdn.put(pmu, "\r\n".join(lines).encode() + b"\r\n")
            self.urls[i].append(pmu)
            for pk, buf in packs.items():
                self.cdn.put(f"{u}{base}/packages/files/{pk}", bytes(buf))
                self.urls[i].append(f"{u}{base}/packages/files/{pk}")
        with guard.disabled():
            for d in os_dirs:
                os.makedirs(os.path.join(self.root, d), exist_ok=True)
        self.st = None

    def storage(self, how):
        from cdtb.rads import RadsStorage
        if how in ("fresh", "process") or self.st is None:
            st = RadsStorage(self.root, self.base_url)
            if how == "process":
                return st
            self.st = st
        return self.st

    def query(self, i, how):
        from cdtb.rads import RadsSolution, RadsSolutionVersion, RadsVersion, RadsPatchElement
        _, r, e = self.case["srcs"][i]["key"]
        sv = RadsSolutionVersion(RadsSolution(self.storage(how), self.SLN[e][0]), RadsVersion(f"0.0.0.{r}"))
        if how == "patch":
            return RadsPatchElement(sv).version
        return sv.patch_version()

    def group(self, i):
        return list(range(len(self.case["srcs"])))

    def listing(self, i, how):
        index = {(x["key"][2], f"0.0.0.{x['key'][1]}"): j for j, x in enumerate(self.case["srcs"])}
        return [(index[e.name, str(e.solution_version.version)], e.version) for e in self.storage(how).patch_elements(stored=True)]


def run(case, env):
    from contextlib import nullcontext
    w = PatcherWorld(case, env) if case["t"] == "patcher" else RadsVersions(case, env)
    ev = []
    with w.cdn:
        for k, o in enumerate(case["ops"]):
            i = o["p"]
            if o["o"] == "lose":
                for u in w.urls[i]:
                    w.cdn.files.pop(u, None)
                continue
            wanted = [i] if o["o"] == "query" else w.group(i)
            failing = bool(o["fail"]) or any(u not in w.cdn.files for j in wanted for u in w.urls[j])
            if o["fail"]:
                fault = {"refuse": "refuse", "status": ("status", 503), "cut": ("cut", 5, "error"), "cuteof": ("cut", 5, "error")}[o["fail"]]
                skip = k % 3
                w.cdn.hook = lambda url, method, n, mark=len(w.cdn.log): fault if n - mark >= skip else None
            mark = len(w.cdn.log)
            with Fresh() if o["how"] == "process" else nullcontext():
                if o["o"] == "query":
                    st, v = env.call(w.query, i, o["how"])
                    ev.append({"op": "query", "p": i + 1, "failing": failing, "status": st, "v": observed(v) if st == "ok" else observed(None),
                               "fetched": len(w.cdn.log) > mark})
                else:
                    st, v = env.call(w.listing, i, o["how"])
                    only = [j + 1 for j in w.group(i)]
                    ev.append({"op": "listing", "failing": failing, "status": st, "items": [{"p": j + 1, "v": observed(x)} for j, x in v] if st == "ok" else [],
                               "only": only, "fetched": len(w.cdn.log) > mark})
            w.cdn.hook = None
    return {"srcs": [{"kind": x["src"]["kind"], "lines": x["src"]["lines"], "v": x["src"]["v"]} for x in case["srcs"]], "ev": ev}
