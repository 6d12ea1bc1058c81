"""Driving the patcher storage: worlds of releases, and projection of the storage"""
import json
import os
import random
import re

from . import guard
from .cdn import Cdn, Clock
from . import rman

STORE = "store"


def tok_content(tok, length=None):
    """Bytes of a chunk token. Tokens starting with E are empty chunks."""
    if tok.startswith("E"):
        return b""
    n = {"b": 40, "c": 300, "d": 7}.get(tok[0], 3)
    return b"<" + tok.encode() + b":" + (tok.encode() * n)[:n] + b">"


_re_tok = re.compile(rb"<([A-Za-z0-9]+):[A-Za-z0-9]*>")


def parse_content(data):
    """Content back to tokens, ["?..."] if it is not made of whole chunks"""
    toks, pos = [], 0
    while pos < len(data):
        m = _re_tok.match(data, pos)
        if not m or m.group(0) != tok_content(m.group(1).decode()):
            return ["?" + data[:20].hex() + str(len(data))]
        toks.append(m.group(1).decode())
        pos = m.end()
    return toks


def file_size(f):
    return sum(len(tok_content(t)) for t in f["chunks"])


class World:
    """releases: [{"ts", "elems": {name: {"files": [{path, chunks, flags, link}], "flags": [name]}}}]"""

    def __init__(self, world, env, patchline="live", versions=True, raw=None):
        self.world = world
        self.env = env
        self.patchline = patchline
        self.root = env.path(STORE)
        self.cdn = Cdn()
        self.builder = rman.Release(random.Random(5), world.get("ids", "big"))
        self.builder.used |= {("chunk", i) for i in world.get("chunk_ids", {}).values()}
        self.raw = raw or {}      # token -> bytes, for contents which are not tokens
        self.bundle_no = {}       # bundle id -> number
        self.bundle_id = {}
        self.elem = {}            # (ri, name) -> {mid, url}
        self.bundle_of = {}
        for ri, rel in enumerate(world["releases"]):
            for name, e in rel["elems"].items():
                for f in e["files"]:
                    for tok in f["chunks"]:
                        self._add_chunk(tok)
        for bid in self.builder.bundles:
            self.cdn.put(rman.bundle_url(bid), self.builder.bundle_data(bid))
        for ri, rel in enumerate(world["releases"]):
            for ei, (name, e) in enumerate(sorted(rel["elems"].items())):
                mid = e.get("mid") or 0xA000000000000000 + ri * 16 + ei
                files = [{"path": f["path"], "chunks": [self.content(t) for t in f["chunks"]], "flags": f.get("flags", ()), "link": f.get("link")} for f in e["files"]]
                m = self.builder.manifest(files, e.get("flags", ()))
                self.cdn.put(rman.manifest_url(mid), rman.encode(m, random.Random(ri * 7 + ei)))
                url = rman.manifest_url(mid)
                if (ri + ei) % 3 == 1:
                    url = url.replace("lol.", "lol.secure.")
                self.elem[ri, name] = {"mid": mid, "url": url}
        with guard.disabled():
            os.makedirs(os.path.join(self.root, "channels", "public"))
            for ri, rel in enumerate(world["releases"]):
                if rel.get("recorded", True):
                    self.record(ri, versions)

    def content(self, tok):
        return self.raw[tok] if tok in self.raw else tok_content(tok)

    def _add_chunk(self, tok):
        if tok in self.bundle_of:
            return
        n = self.world["bundle_of"].get(tok, 1)
        if n not in self.bundle_id:
            bid = self.builder.new_bundle()
            self.bundle_id[n], self.bundle_no[bid] = bid, n
        c = self.content(tok)
        if c in self.builder.chunk_of:      # same content: distinct chunk needs distinct id
            self.bundle_of[tok] = self.bundle_no[self.builder.chunk_of[c][1]]
            return
        self.builder.chunk(c, self.bundle_id[n], self.world.get("chunk_ids", {}).get(tok))
        self.bundle_of[tok] = n

    def release_dir(self, ri):
        return os.path.join(self.root, "cdtb", "releases", self.patchline, str(self.world["releases"][ri]["ts"]))

    def record(self, ri, versions=True):
        rel = self.world["releases"][ri]
        d = self.release_dir(ri)
        os.makedirs(d)
        with open(os.path.join(d, "release.json"), "w") as f:
            json.dump({f"{name}_patch_url": self.elem[ri, name]["url"] for name in rel["elems"]}, f)
        if versions:
            for name in rel["elems"]:
                with open(os.path.join(d, f"patch_version.{name}"), "w") as f:
                    f.write(f"{self.version(ri, name)}\n")
        with open(os.path.join(os.path.dirname(d), "latest.timestamp"), "w") as f:
            f.write(f"{rel['ts']}\n")

    def version(self, ri, name):
        v = self.world["releases"][ri].get("versions", {}).get(name)
        return v or f"1.{ri + 1}"

    def storage(self, sym=True):
        from cdtb.patcher import PatcherStorage
        s = PatcherStorage(self.root, self.patchline)
        s.use_extract_symlinks = sym
        return s

    def release(self, storage, ri):
        from cdtb.patcher import PatcherRelease
        return PatcherRelease(storage, self.world["releases"][ri]["ts"])

    # -- projection --

    def snapshot(self):
        """Visible files of releases, stored bundles, names of everything unexpected"""
        with guard.disabled():
            return self._snapshot()

    def _snapshot(self):
        vis, bundles, odd, dangling = {}, [], [], []
        real_id = {}
        base = os.path.join(self.root, "cdtb", "releases", self.patchline)
        for ri, rel in enumerate(self.world["releases"]):
            top = os.path.join(base, str(rel["ts"]), "files")
            for dirpath, dirnames, filenames in os.walk(top):
                for fn in filenames:
                    p = os.path.join(dirpath, fn)
                    if not os.path.isfile(p):
                        dangling.append(f"r{ri}/{os.path.relpath(p, top)}")
                        continue    # dangling link: cannot be read
                    with open(p, "rb") as f:
                        data = f.read()
                    rp = os.path.realpath(p)
                    st = os.stat(p)
                    vis[f"r{ri}/{os.path.relpath(p, top)}"] = {
                        "c": self.tokens(data), "size": len(data), "lnk": os.path.islink(p),
                        "real": "f%d" % real_id.setdefault((st.st_dev, st.st_ino), len(real_id)),
                        "inside": rp.startswith(os.path.realpath(self.root) + "/"),
                    }
        bdir = os.path.join(self.root, "channels", "public", "bundles")
        if os.path.isdir(bdir):
            for fn in sorted(os.listdir(bdir)):
                m = re.match(r"^([0-9A-F]{16})\.bundle$", fn)
                if not m:
                    if not fn.startswith("."):
                        odd.append(fn)
                    continue
                bid = int(m.group(1), 16)
                with open(os.path.join(bdir, fn), "rb") as f:
                    ok = bid in self.bundle_no and f.read() == self.builder.bundle_data(bid)
                if ok:
                    bundles.append(self.bundle_no[bid])
                else:
                    odd.append(fn)
        return {"vis": vis, "bundles": bundles, "odd": odd, "dangling": dangling}

    def tokens(self, data):
        for t, c in self.raw.items():
            if c == data:
                return [t]
        return parse_content(data)

    def requested_bundles(self, since=0):
        ret = []
        for url, *_ in self.cdn.log[since:]:
            m = re.match(r".*/bundles/([0-9A-F]{16})\.bundle$", url)
            if m:
                ret.append(self.bundle_no.get(int(m.group(1), 16), -1))
        return ret

    # -- abstract world for TLC --

    def manifests(self):
        ret = {}
        for ri, rel in enumerate(self.world["releases"]):
            for name, e in rel["elems"].items():
                ret[f"r{ri}/{name}"] = [
                    {"path": f["path"], "lpath": f["path"].lower(), "chunks": f["chunks"],
                     "flags": list(f.get("flags", ())), "lflags": [x.lower() for x in f.get("flags", ())],
                     "link": f.get("link") or "", "size": sum(len(self.content(t)) for t in f["chunks"])} for f in e["files"]]
            # everything at once
            ret[f"r{ri}/*"] = [f for name in sorted(rel["elems"]) for f in ret[f"r{ri}/{name}"]]
        return ret


def langs_value(langs):
    """(value given to the code, abstract selection)"""
    if langs is True:
        return True, {"kind": "all", "list": []}
    if langs is False:
        return False, {"kind": "none", "list": []}
    if isinstance(langs, str):
        return langs, {"kind": "list", "list": [langs.lower()]}
    return list(langs), {"kind": "list", "list": [x.lower() for x in langs]}


FLAGS = ["de_DE", "en_US", "fr_FR", "ko_KR", "windows", "macos", "x_y"]


def gen_world(rng, nrel=None, flags=True, max_files=5):
    toks = [f"{a}{i}" for a in "abcd" for i in range(4)] + ["E0"]
    rng.shuffle(toks)
    nb = rng.choice([1, 2, 3, 6])
    world = {"bundle_of": {t: rng.randint(1, nb) for t in toks}, "releases": [], "ids": rng.choice(["big", "small", "small", "high", "mixed"])}
    # identifiers whose texts can be concatenated in several ways
    special = [t for t in toks if t[0] == "a"] + [t for t in toks if t[0] == "b"][:2]
    if rng.random() < .4:
        world["chunk_ids"] = dict(zip(special, rng.choice([[0x1, 0x23, 0x12, 0x3, 0x123, 0x2], [0x1 << 32, 0x23, 0x12 << 32, 0x3, 0x11, 0x1]])))
    prev = None
    dirs = ["", "", "DATA/", "Plugins/Rcp-Be/", "a/b/c/", "a/"]
    for ri in range(nrel or rng.choice([1, 2, 2, 3])):
        rel = {"ts": 1000 + ri * 100, "elems": {}}
        for name in rng.choice([["client"], ["game"], ["client", "game"]]) if ri == 0 else list(prev["elems"]):
            files = []
            if ri and rng.random() < .8:
                for f in prev["elems"][name]["files"]:
                    r = rng.random()
                    if r < .15:
                        continue
                    f = dict(f)
                    if r < .5 and f["chunks"]:
                        ch = list(f["chunks"])
                        i = rng.randrange(len(ch))
                        # same size, other content
                        ch[i] = rng.choice([t for t in toks if t[0] == ch[i][0]])
                        f["chunks"] = ch
                    files.append(f)
            for k in range(rng.randint(0 if files else 1, max_files)):
                nch = rng.choice([0, 1, 1, 2, 3, 5])
                pool = rng.sample(toks, rng.choice([2, 4]))
                f = {"path": rng.choice(dirs) + f"{name[0].upper()}{ri}{k}" + rng.choice([".wad", ".TXT", ""]),
                     "chunks": [rng.choice(pool) for _ in range(nch)]}
                if files and rng.random() < .4:
                    # same chunks, possibly in another order, or other chunks close to them
                    f["chunks"] = list(rng.choice(files)["chunks"])
                    r = rng.random()
                    if r < .35:
                        rng.shuffle(f["chunks"])
                    elif r < .45 and f["chunks"]:
                        f["chunks"].insert(rng.randrange(len(f["chunks"])), rng.choice(f["chunks"]))
                if flags and rng.random() < .6:
                    f["flags"] = rng.sample(FLAGS, rng.choice([1, 1, 2, 3]))
                if rng.random() < .1:
                    f["link"] = "elsewhere"
                files.append(f)
            if "chunk_ids" in world and rng.random() < .7:
                for k, ch in enumerate(rng.sample([special[:2], special[2:4], special[4:5], special[:1] + special[5:6] + special[3:4]], rng.choice([2, 3]))):
                    files.append({"path": rng.choice(dirs) + f"s{name[0]}{ri}{k}.bin", "chunks": ch})
            rel["elems"][name] = {"files": files, "flags": FLAGS}
        prev = rel
        world["releases"].append(rel)
    return world


def gen_langs(rng):
    return rng.choice([True, True, False, False, "de_DE", "DE_de", "en_us", ["fr_FR"], ["de_de", "EN_US"], [], ["ko_KR", "xx_XX", "fr_fr"], "windows", "xx_XX"])


# -- operations --

class Session:
    """Runs operations on a world and records events"""

    def __init__(self, env, world, **kw):
        self.env = env
        self.w = World(world, env, **kw)
        self.events = [dict(op="env", **self.w.snapshot())]

    def run_ops(self, ops):
        with self.w.cdn:
            for o in ops:
                self.w.cdn.hook = None
                getattr(self, "op_" + o["o"])(o)
        return self.events

    def op_download(self, o):
        w, env = self.w, self.env
        langs, alangs = langs_value(o["langs"])
        kw = {} if langs is True and len(self.events) % 2 else {"langs": langs}   # all of them by default
        w.cdn.hook = None
        if "fail" in o:
            n0 = len(w.cdn.log)
            w.cdn.hook = lambda url, method, n: "refuse" if n - n0 >= o["fail"] else None
        mark = len(w.cdn.log)
        storage = w.storage(o["sym"])
        st, r = env.call(w.release, storage, o["r"])
        e = r.element(o["e"])
        from cdtb.patcher import PatcherPatchElement
        via = o.get("via", "elem")
        again = bool(o.get("overwrite")) and via in ("release", "whole")
        if via == "elem":
            pe = PatcherPatchElement(e)
            st, _ = env.call(pe.download, **kw)
        elif via == "release":
            st, _ = env.call(e.download_bundles, **kw, skip_extracted=not again)
            if st == "ok":
                st, _ = env.call(e.extract, **kw, overwrite=again)
        elif via == "whole":
            st, _ = env.call(r.download_bundles, **kw, skip_extracted=not again)
            if st == "ok":
                st, _ = env.call(r.extract, **kw, overwrite=again)
        elif via == "patch":
            from cdtb.storage import Patch

            def whole():
                elems = [PatcherPatchElement(x) for x in r.elements()]
                for x in elems:
                    x.version = elems[0].version
                return Patch._create(elems).download(**kw)
            st, _ = env.call(whole)
        elif via == "cli":
            conf = env.path("conf.json")
            with guard.disabled(), open(conf, "w") as f:
                json.dump({"type": "patcher", "path": STORE, "patchline": w.patchline, "use_extract_symlinks": o["sym"]}, f)
            args = ["download", "-s", conf, f"{o['e']}={w.version(o['r'], o['e'])}"]
            if langs is False:
                args.append("--no-lang")
            elif langs is not True:
                args += ["--lang"] + ([langs] if isinstance(langs, str) else langs)
            st, _, _ = env.cli(args)
        if "fail" in o:
            self.events.append(dict(op="env", **w.snapshot()))
            return
        self.events.append(dict(op="download", key=f"r{o['r']}/{'*' if via in ('whole', 'patch') else o['e']}", rel=f"r{o['r']}", langs=alangs, sym=o["sym"], skip=not again,
                                status=st, requested=w.requested_bundles(mark), **w.snapshot()))

    def op_extract(self, o):
        """Extraction alone (bundles are there after a full download)"""
        w, env = self.w, self.env
        langs, alangs = langs_value(o["langs"])
        kw = {} if langs is True and len(self.events) % 2 else {"langs": langs}   # all of them by default
        storage = w.storage(o["sym"])
        e = w.release(storage, o["r"]).element(o["e"])
        st, _ = env.call(e.download_bundles, **kw, skip_extracted=False)
        mark = len(w.cdn.log)
        st, _ = env.call(e.extract, **kw, overwrite=True)
        self.events.append(dict(op="extract", key=f"r{o['r']}/{o['e']}", rel=f"r{o['r']}", langs=alangs, sym=o["sym"], skip=False,
                                status=st, requested=w.requested_bundles(mark), **w.snapshot()))

    def op_query(self, o):
        """Paths and bundles, without changing anything but manifests"""
        w, env = self.w, self.env
        langs, alangs = langs_value(o["langs"])
        kw = {} if langs is True and len(self.events) % 2 else {"langs": langs}   # all of them by default
        storage = w.storage(o["sym"])
        from cdtb.patcher import PatcherPatchElement
        pe = PatcherPatchElement(w.release(storage, o["r"]).element(o["e"]))
        base = os.path.join(w.release_dir(o["r"]), "files")

        def rel(p):
            p = os.path.normpath(p)
            return p[len(base) + 1:] if p.startswith(base + "/") else "!" + p
        st1, paths = env.call(lambda: [[rel(a), b] for a, b in pe.paths(**kw)])
        st2, fs = env.call(lambda: [rel(a) for a in pe.fspaths(**kw)])
        st3, rp = env.call(lambda: list(pe.relpaths(**kw)))
        st4, b1 = env.call(lambda: sorted(w.bundle_no.get(b, -1) for b in pe.elem.bundle_ids(**kw)))
        st5, b2 = env.call(lambda: sorted(w.bundle_no.get(b, -1) for b in pe.elem.bundle_ids(**kw, skip_extracted=True)))
        st6, els = env.call(lambda: sorted(pe.elem.release.available_elements()))
        st7, els2 = env.call(lambda: sorted(x.name for x in pe.elem.release.elements()))
        sts = [st1, st2, st3, st4, st5, st6, st7]
        ok = all(s == "ok" for s in sts)
        self.events.append(dict(op="query", key=f"r{o['r']}/{o['e']}", rel=f"r{o['r']}", langs=alangs, status="ok" if ok else "raised",
                                paths=paths if ok else [], fspaths=fs if ok else [], relpaths=rp if ok else [],
                                bundles_all=b1 if ok else [], bundles_skip=b2 if ok else [],
                                elems=[els, els2] if ok else [], expected_elems=sorted(w.world["releases"][o["r"]]["elems"])))

    def op_manifest(self, o):
        """Retrieve a manifest from its identifier or URL"""
        w, env = self.w, self.env
        mid = w.elem[o["r"], o["e"]]["mid"]
        good = rman.manifest_url(mid)
        url = {"plain": good, "secure": good.replace("lol.", "lol.secure."), "http": good.replace("https:", "http:"),
               "host": good.replace("lol.", "tft."), "port": good.replace(".net/", ".net:8080/"),
               "lower": good[:-25] + good[-25:].lower(), "short": good[:-10] + good[-9:], "long": good.replace(".manifest", "0.manifest"),
               "query": good + "?x=1", "ext": good.replace(".manifest", ".bundle"), "end": good[:-1],
               "dir": good.replace("releases", "bundles"), "up": good.replace("releases/", "releases/../"), "relative": good.split(".net/")[1],
               "empty": "", "twice": good + good[-26:], "suffix": good.replace(".net/", ".net.example/"),
               "encoded": good.replace("/releases/", "/releases%2F")}.get(o["form"])
        if o.get("gone"):
            # not stored yet
            p = os.path.join(w.root, "channels", "public", "releases", f"{mid:016X}.manifest")
            with guard.disabled():
                if os.path.isfile(p):
                    os.remove(p)
        path = os.path.join(w.root, "channels", "public", "releases")

        def stored():
            with guard.disabled():
                return sorted(os.listdir(path)) if os.path.isdir(path) else []
        before = stored()
        mark = len(w.cdn.log)
        st, p = env.call(w.storage().download_manifest, mid if url is None else url)
        after = stored()
        name = f"{mid:016X}.manifest"
        same = False
        if name in after:
            with guard.disabled(), open(os.path.join(path, name), "rb") as f:
                same = f.read() == w.cdn.files[good]
        self.events.append(dict(op="manifest", byid=url is None, url=url or "", name=name, status=st, path=p if st == "ok" else "",
                                requests=[e[0] for e in w.cdn.log[mark:]], good=good, before=before, after=after, same=same))

    # damage from outside
    def _env(self):
        self.events.append(dict(op="env", **self.w.snapshot()))

    def _pick(self, top, k, pred=lambda p: True):
        ret = []
        for dirpath, _, names in os.walk(os.path.join(self.w.root, top)):
            ret += [os.path.join(dirpath, n) for n in names if pred(os.path.join(dirpath, n))]
        ret.sort()
        return ret[k % len(ret)] if ret else None

    def op_rm(self, o):
        with guard.disabled():
            top = {"shared": "cdtb/files", "vis": f"cdtb/releases/{self.w.patchline}", "bundles": "channels/public/bundles"}[o["t"]]
            pred = (lambda p: "/files/" in p) if o["t"] == "vis" else (lambda p: True)
            if o.get("all"):
                while (p := self._pick(top, 0, pred)):
                    os.remove(p)
            else:
                p = self._pick(top, o.get("k", 0), pred)
                if p:
                    os.remove(p)
        self._env()

    def op_trunc(self, o):
        """A file with an unexpected size"""
        with guard.disabled():
            top = {"shared": "cdtb/files", "vis": f"cdtb/releases/{self.w.patchline}"}[o["t"]]
            p = self._pick(top, o.get("k", 0), lambda p: "/files/" in p and os.path.isfile(p))
            if p:
                rp = os.path.realpath(p)
                n = os.path.getsize(rp)
                with open(rp, "r+b") as f:
                    if n:
                        f.truncate(n - 1)
                    else:
                        f.write(b"?")
        self._env()
