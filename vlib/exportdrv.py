"""Driving exports of patches: worlds of patches with their archives, and projection of the exported trees

A world is {"storage": "patcher"|"stub", "sym", "contents": {id: {"kind", "data"}}, "releases": [{"v": [X, Y] or [], "srcs": [source]}], "recorded": n}
A source is {"el": client|game, "path", "c": id} or {"el", "path", "wad": [major, minor], "entries": [{"h", "path", "c", "kind", "redir"}]}
"""
import hashlib
import os
import random

import xxhash

from . import guard, waddrv, contents
from .patcherdrv import World

EXPORTS = "exports"


def vtext(v):
    return ".".join(map(str, v)) if v else "main"


def empty_hashes():
    """Export without any known hash"""
    import cdtb.binfile as B
    import cdtb.hashes as H
    import cdtb.rstfile as R
    for f in (H.hashfile_game, H.hashfile_lcu, B.hashfile_binentries, B.hashfile_binhashes, B.hashfile_binfields, B.hashfile_bintypes,
              R.hashfile_rst_xxh64, R.hashfile_rst_xxh3):
        f.hashes = {}


class StubElement:
    def __init__(self, name, version, files):
        self.name, self.version, self.files = name, version, files

    def download(self, langs=True):
        pass

    def paths(self, langs=True):
        return list(self.files)

    def fspaths(self, langs=True):
        return [a for a, _ in self.files]

    def relpaths(self, langs=True):
        return [b for _, b in self.files]


class StubPatch:
    def __init__(self, version, elements):
        self.version, self.elements = version, elements

    def latest(self):
        return self


class ExportWorld:
    def __init__(self, case, env):
        self.case, self.env = case, env
        self.cdata = {k: c["data"] for k, c in case["contents"].items()}
        self.recorded = []
        self.blobs = {}     # (release, source index) -> bytes
        for ri, rel in enumerate(case["releases"]):
            for si, s in enumerate(rel["srcs"]):
                self.blobs[ri, si] = self._archive(s) if "wad" in s else self.cdata[s["c"]]
        self.set_hashes(case.get("hashes", {}))
        if case["storage"] == "patcher":
            raw, rels, tok_of = {}, [], {}
            for ri, rel in enumerate(case["releases"]):
                elems = {}
                for si, s in enumerate(rel["srcs"]):
                    data = self.blobs[ri, si]
                    t = tok_of.setdefault(data, "f%d" % len(tok_of))
                    raw[t] = data
                    elems.setdefault(s["el"], {"files": [], "flags": ["fr_FR"]})["files"].append({"path": s["path"], "chunks": [t], "flags": s.get("flags", ())})
                rels.append({"ts": 1700000000 + 100 * ri, "elems": elems, "versions": {n: vtext(rel["v"]) for n in elems}, "recorded": False})
            self.world = World({"releases": rels, "bundle_of": {t: 1 + i % 3 for i, t in enumerate(raw)}}, env, raw=raw,
                               patchline="pbe" if any(not r["v"] for r in case["releases"]) else "live")
        for ri in range(case.get("recorded", len(case["releases"]))):
            self.record(ri)
        with guard.disabled():
            os.makedirs(env.path(EXPORTS), exist_ok=True)
            os.makedirs(env.path("outside/sub"), exist_ok=True)
            for n in ("f.txt", "sub/g.png"):
                with open(env.path("outside", n), "w") as f:
                    f.write("keep " + n)

    def set_hashes(self, hashes):
        import cdtb.wad
        import cdtb.hashes as H
        import cdtb.binfile as B
        import cdtb.rstfile as R
        cdtb.wad._hash_to_guessed_extensions.clear()
        H.hashfile_game.hashes = {int(h, 16): p for h, p in hashes.get("game", {}).items()}
        H.hashfile_lcu.hashes = {int(h, 16): p for h, p in hashes.get("lcu", {}).items()}
        for f in (B.hashfile_binentries, B.hashfile_binhashes, B.hashfile_binfields, B.hashfile_bintypes):
            f.hashes = {}
        for f in (R.hashfile_rst_xxh64, R.hashfile_rst_xxh3):
            f.hashes = {}

    def _archive(self, s):
        entries = []
        for e in s["entries"]:
            d = self.cdata[e["c"]]
            kind = "redir" if e.get("redir") else e["kind"]
            if s["wad"][0] < 3 and kind == "zstd":
                kind = "gz"
            w = {"h": int(e["h"], 16), "kind": kind, "data": d, "sum": xxhash.xxh3_64_intdigest(d + b"|" + kind.encode())}
            if self.case["contents"][e["c"]]["tok"]["none"] and kind != "redir":
                # chunks of an unknown table
                w.update(kind="raw", type=4)
            if kind == "redir":
                w["target"] = e.get("target", "x/y")
            entries.append(w)
        data, _ = waddrv.build({"version": s["wad"], "entries": entries}, random.Random(s.get("salt", len(entries))))
        return data

    # -- storage --

    def record(self, ri):
        self.recorded.append(ri)
        if self.case["storage"] == "patcher":
            with guard.disabled():
                self.world.record(ri)
            return
        with guard.disabled():
            for si, s in enumerate(self.case["releases"][ri]["srcs"]):
                p = self.stub_path(ri, si)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(self.blobs[ri, si])

    def stub_path(self, ri, si):
        s = self.case["releases"][ri]["srcs"][si]
        name = hashlib.sha1(self.blobs[ri, si]).hexdigest()[:8] if self.case["sym"] else f"r{ri}"
        return self.env.path("stub", name, s["path"])

    def srcs(self, v):
        """Current sources of a patch: the latest ones of each element"""
        return [self.case["releases"][r]["srcs"][i] for r, i in self.indices(v)]

    def indices(self, v):
        last = {}
        for r in self.recorded:
            rel = self.case["releases"][r]
            if rel["v"] == v:
                for s in rel["srcs"]:
                    last[s["el"]] = r
        return [(r, i) for el, r in sorted(last.items()) for i, s in enumerate(self.case["releases"][r]["srcs"]) if s["el"] == el]

    def patch(self, v):
        if self.case["storage"] == "patcher":
            return self.world.storage(self.case["sym"]).patch(vtext(v), stored=True)
        from cdtb.storage import PatchVersion
        version = PatchVersion(vtext(v))
        elems = {}
        for ri, si in self.indices(v):
            s = self.case["releases"][ri]["srcs"][si]
            elems.setdefault(s["el"], []).append((self.stub_path(ri, si), s["path"].lower()))
        return StubPatch(version, [StubElement(el, version, files) for el, files in elems.items()])

    def online(self):
        import contextlib
        return self.world.cdn if self.case["storage"] == "patcher" else contextlib.nullcontext()

    def predownload(self):
        """Have everything in the storage, so that faults only hit exports"""
        with self.online():
            for v in {vtext(self.case["releases"][r]["v"]): self.case["releases"][r]["v"] for r in self.recorded}.values():
                for e in self.patch(v).latest().elements:
                    e.download(langs=True)

    # -- projection --

    def tree(self, d):
        """{path: node} of an export directory, without its cdragon directory"""
        root = self.env.path(EXPORTS, d)
        base = os.path.realpath(self.env.path(EXPORTS))
        ret = {}
        with guard.disabled():
            if os.path.islink(root) or not os.path.isdir(root):
                return {}
            for dirpath, dirnames, filenames in os.walk(root):
                rel = os.path.relpath(dirpath, root)
                if rel == ".":
                    rel = ""
                    if not os.path.islink(os.path.join(root, "cdragon")):
                        dirnames[:] = [x for x in dirnames if x != "cdragon"]
                for name in list(dirnames):
                    if os.path.islink(os.path.join(dirpath, name)):
                        dirnames.remove(name)
                        filenames.append(name)
                if rel and not dirnames and not filenames:
                    ret[rel] = {"k": "d", "raw": "", "sem": "", "to": []}
                for name in filenames:
                    p = os.path.join(dirpath, name)
                    r = name if not rel else f"{rel}/{name}"
                    if os.path.islink(p):
                        # final target; the link itself is compared as is
                        t = os.path.relpath(os.path.realpath(p), base)
                        ret[r] = {"k": "l", "raw": os.readlink(p), "sem": "", "to": ["!" + t] if t.startswith("..") else t.split("/", 1)}
                    elif os.path.isfile(p):
                        ret[r] = dict(self._file(p), k="f", to=[])
                    else:
                        ret[r] = {"k": "o", "raw": "", "sem": "", "to": []}
        return ret

    def _file(self, p):
        with open(p, "rb") as f:
            data = f.read()
        return {"raw": contents.raw_token(data), "sem": contents.sem_token(data, os.path.splitext(p)[1])}

    def view(self, d):
        """{path: tokens} of files visible through links"""
        root = self.env.path(EXPORTS, d)
        ret = {}
        with guard.disabled():
            if not os.path.isdir(root):
                return {}
            seen = set()
            for dirpath, dirnames, filenames in os.walk(root, followlinks=True):
                real = os.path.realpath(dirpath)
                if dirpath.count("/") - root.count("/") > 12:
                    dirnames[:] = []
                    continue
                seen.add(real)
                rel = os.path.relpath(dirpath, root)
                if rel == ".":
                    rel = ""
                    dirnames[:] = [x for x in dirnames if x != "cdragon"]
                for name in filenames:
                    p = os.path.join(dirpath, name)
                    if os.path.isfile(p):
                        ret[name if not rel else f"{rel}/{name}"] = self._file(p)
        return ret

    def cdragon(self, d):
        ret = {"names": [], "lists": {}}
        root = self.env.path(EXPORTS, d, "cdragon")
        with guard.disabled():
            if not os.path.isdir(root):
                return ret
            ret["names"] = sorted(os.listdir(root))
            for n in ("exported", "unknown", "links"):
                p = os.path.join(root, f"files.{n}.txt")
                if os.path.isfile(p):
                    with open(p, newline="") as f:
                        t = f.read()
                    lines = t.split("\n")
                    ret["lists"][n] = {"lines": lines[:-1], "whole": lines[-1] == "" and "\r" not in t, "sorted": lines[:-1] == sorted(lines[:-1]),
                                       "once": len(set(lines[:-1])) == len(lines[:-1])}
        return ret

    def dirs(self):
        with guard.disabled():
            return sorted(os.listdir(self.env.path(EXPORTS)))

    def outside(self):
        """Everything which is neither the exports nor the storage"""
        from .wenv import fstree
        with guard.disabled():
            ret = {}
            for n in sorted(os.listdir(self.env.dir)):
                if n in (EXPORTS, "store", "stub"):
                    continue
                p = self.env.path(n)
                if os.path.isdir(p):
                    for k, x in fstree(p, contents.raw_token).items():
                        ret[n + "/" + k] = ":".join(x)
                else:
                    ret[n] = "file"
            return ret

    def snapshot(self):
        dirs = [d for d in self.dirs()]
        return {"trees": {d: self.tree(d) for d in dirs}, "outside": self.outside()}

    def src_json(self, srcs):
        ret = []
        for s in srcs:
            r = {"wad": "wad" in s, "path": s["path"].lower(), "c": s.get("c", ""), "es": [], "v1": "wad" in s and s["wad"][0] == 1}
            for e in s.get("entries", ()):
                # data of redirections is not read
                r["es"].append({"h": e["h"], "path": e["path"], "c": e["c"], "redir": bool(e.get("redir")), "ext": "" if e.get("redir") else e.get("ext", "")})
            ret.append(r)
        return ret
