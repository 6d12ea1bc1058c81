"""Driving storages whose history of releases matters: listings, lookups and updates

Patcher storages: manifests are named c0, c1... (client) and g0, g1... (game), each has its own patch version.
A release is {"client": "c0", "game": "g1"}, elements may be missing in releases recorded beforehand.
RADS storages: solution versions with their patch version.
"""
import json
import os
import random
import re

from . import guard, rman
from .cdn import Cdn, Clock

STORE = "store"
ELEMS = {"client": "system.yaml", "game": "content-metadata.json"}
UPDATE_HOSTS = ("clientconfig.rpg.riotgames.com", "sieve.services.riotcdn.net", "mirror.example")
MIRROR = "https://mirror.example/lol/client.json"
REGION = {"live": "EUW", "pbe": "PBE"}
PLATFORM = {"live": "EUW1", "pbe": "PBE1"}


def vtext(v):
    return ".".join(map(str, v)) if v else "main"


def vnums(version):
    """Observed version as numbers"""
    s = str(version)
    return [] if s == "main" else [int(x) for x in s.split(".")]


def system_yaml(v, rng=None):
    text = vtext(v)
    forms = [f"build:\n  branch: Releases/{text}\n  other: 1\n", f"branch: '{text}'\nx: y\n", f"x: Release/9.9.9\ngame-branch: Releases/{text}\n",
             f"  branch: \"{text}\"\nregion_data:\n  a: b\n", f"# header\ngame-branch: '{text}'\nbranch2: '1.1'\n"]
    return (rng.choice(forms) if rng else forms[0]).encode()


def content_metadata(v, rng=None):
    text = vtext(v)
    tail = rng.choice(["123.4567+branch.releases-1-2", "0.0", "10"]) if rng else "5.6"
    return json.dumps({"name": "x", "version": f"{text}.{tail}", "z": [1]}).encode()


class PatcherHistory:
    """manifests: {"c0": [X, Y] version, "g0": ...}; initial: {patchline: [{"client": "c0", ...}]} oldest first"""

    def __init__(self, case, env):
        self.case, self.env = case, env
        self.root = env.path(STORE)
        self.cdn = Cdn()
        self.clock = Clock(case.get("now", 1700000000))
        self.rng = random.Random(case.get("salt", 0))
        self.mid, self.files = {}, {}
        self.name_of_url = {}
        b = rman.Release(random.Random(3))
        for i, (name, v) in enumerate(sorted(case["manifests"].items())):
            elem = {"c": "client", "g": "game"}[name[0]]
            data = case.get("raw", {}).get(name)
            data = data.encode() if data is not None else \
                system_yaml(v, self.rng) if elem == "client" else content_metadata(v, self.rng)
            bid = b.new_bundle()
            files = [{"path": ELEMS[elem], "chunks": [data]}]
            b.chunk(data, bid)
            for k, f in enumerate(case.get("files", {}).get(name, [])):
                c = f["data"] if isinstance(f.get("data"), bytes) else f["data"].encode() if "data" in f else f"{name}-{k}-{f['path']}".encode()
                b.chunk(c, bid)
                files.append({"path": f["path"], "chunks": [c], "flags": f.get("flags", [])})
            flags = sorted({x for f in files for x in f.get("flags", [])})
            self.mid[name] = 0xD000000000000000 + i
            self.files[name] = files
            # each manifest has its own chunks only
            m = b.manifest(files, flags)
            m["bundles"] = [x for x in m["bundles"] if any(c["id"] in f["chunks"] for c in x["chunks"] for f in m["files"])]
            self.cdn.put(rman.manifest_url(self.mid[name]), rman.encode(m, random.Random(i)))
            self.name_of_url[self.url(name)] = name
        for bid in b.bundles:
            self.cdn.put(rman.bundle_url(bid), b.bundle_data(bid))
        self.adv = {}
        self.conf_file = env.path("client config.json")
        self.source = {"file": self.conf_file, "url": MIRROR}.get(case.get("conf"))
        self.storages = {}
        self.known = {}         # patchline -> [release ids] oldest first, as recorded so far
        with guard.disabled():
            os.makedirs(os.path.join(self.root, "channels", "public"))
            for line, rels in case.get("initial", {}).items():
                base = os.path.join(self.root, "cdtb/releases", line)
                for k, rel in enumerate(rels):
                    ts = case["now"] - 1000 * (len(rels) - k) if "ts" not in rel else rel["ts"]
                    os.makedirs(f"{base}/{ts}")
                    with open(f"{base}/{ts}/release.json", "w") as f:
                        json.dump({f"{n}_patch_url": self.url(m) for n, m in rel.items() if n in ELEMS}, f)
                    if case.get("cached", True):
                        for n, m in rel.items():
                            if n in ELEMS and (case.get("cached") != "some" or self.rng.random() < .5):
                                with open(f"{base}/{ts}/patch_version.{n}", "w") as f:
                                    f.write(("main" if line == "pbe" else vtext(case["manifests"][m])) + "\n")
                    with open(f"{base}/latest.timestamp", "w") as f:
                        f.write(f"{ts}\n")

    def url(self, name, secure=False):
        u = rman.manifest_url(self.mid[name])
        return u.replace("lol.dyn.", "lol.secure.dyn.") if secure else u

    def advertise(self, line, client, game):
        """What the update servers answer for a patchline (None: nothing usable)"""
        self.adv[line] = (client, game)
        data = {}
        for pl, (c, g) in self.adv.items():
            confs = [{"id": "NA", "patch_url": "https://lol.dyn.riotcdn.net/channels/public/releases/00000000000000AA.manifest"}]
            if c is not None:
                confs.insert(self.rng.randrange(2), {"id": REGION[pl], "patch_url": self.url(c), "patch_artifacts": []})
            confs.append({"id": "KR", "patch_url": "https://lol.dyn.riotcdn.net/channels/public/releases/00000000000000AB.manifest"})
            data[f"keystone.products.league_of_legends.patchlines.{pl}"] = {"platforms": {"mac": {"configurations": []}, "win": {"configurations": confs}}}
            u = rman.sieve_url(PLATFORM[pl])
            rel = [{"download": {"url": self.url(g)}, "release": {"labels": {}}}] if g is not None else []
            self.cdn.put(self._quoted(u), json.dumps({"releases": rel}).encode())
        body = json.dumps(data).encode()
        conf = self.case.get("conf", "default")
        if conf == "file":
            with guard.disabled(), open(self.conf_file, "wb") as f:
                f.write(body)
        elif conf == "url":
            self.cdn.put(MIRROR, body)
        if conf == "default":
            self.cdn.put(self._quoted(rman.CLIENT_CONFIG), body)
        else:
            # not to be used: another client
            other = re.sub(rb"/releases/[0-9A-F]{16}", b"/releases/00000000000000AC", body)
            self.cdn.put(self._quoted(rman.CLIENT_CONFIG), other)

    @staticmethod
    def _quoted(u):
        import requests
        return requests.Request("GET", u).prepare().url

    def storage(self, line, fresh=False):
        from cdtb.patcher import PatcherStorage
        if fresh or line not in self.storages:
            if self.source is None:
                self.storages[line] = PatcherStorage(self.root, line)
            else:
                self.storages[line] = PatcherStorage.from_conf_data({"path": self.root, "patchline": line, "clientconfig_data": self.source})
        return self.storages[line]

    def storage_arg(self):
        """Storage for the command line"""
        if self.source is None:
            return self.root
        path = self.env.path("storage.yaml")
        with guard.disabled(), open(path, "w") as f:
            json.dump({"type": "patcher", "path": self.root, "clientconfig_data": self.source}, f)
        return path

    # -- projection --
    def releases(self, line):
        """Recorded releases, oldest first: [[id, client, game]] and ids with an incomplete release file"""
        ret, bad = [], []
        with guard.disabled():
            base = os.path.join(self.root, "cdtb/releases", line)
            if not os.path.isdir(base):
                return [], []
            for name in sorted((n for n in os.listdir(base) if n.isdigit()), key=int):
                p = os.path.join(base, name, "release.json")
                if not os.path.exists(p):
                    continue
                try:
                    with open(p) as f:
                        data = json.load(f)
                    ret.append([name] + [self.name_of_url.get(data.get(f"{n}_patch_url"), "-" if not data.get(f"{n}_patch_url") else "?") for n in ("client", "game")])
                except ValueError:
                    bad.append(name)
        return ret, bad

    def rel_index(self, line, release_id):
        ids = [r[0] for r in self.releases(line)[0]]
        return ids.index(str(release_id)) + 1 if str(release_id) in ids else 0

    def abstract_history(self, line):
        """H of History.tla"""
        return [{n: ([] if line == "pbe" else list(self.case["manifests"][m])) for n, m in (("client", r[1]), ("game", r[2])) if m in self.mid}
                for r in self.releases(line)[0]]

    def update_requests(self, mark):
        return sum(1 for u, *_ in self.cdn.log[mark:] if any(h in u for h in UPDATE_HOSTS))

    def elem_rec(self, line, e):
        return {"name": e.name, "rel": self.rel_index(line, e.elem.release.version), "v": vnums(e.version)}

    def release_files(self, line, ids):
        """Content of recorded release files (detects changes)"""
        ret = []
        with guard.disabled():
            for i in ids:
                p = os.path.join(self.root, "cdtb/releases", line, str(i), "release.json")
                try:
                    with open(p, "rb") as f:
                        ret.append(f.read())
                except OSError:
                    ret.append(None)
        return ret


class RadsHistory:
    """solutions: {"client": [{"v": "0.0.0.1", "patch": [X, Y] or None, "stored": bool}], "game": ...} oldest first"""
    SLN = {"client": "league_client_sln", "game": "lol_game_client_sln"}

    def __init__(self, case, env):
        self.case, self.env = case, env
        self.root = env.path(STORE)
        self.cdn = Cdn()
        rng = random.Random(case.get("salt", 0))
        from cdtb.rads import RadsStorage
        self.base_url = RadsStorage.URL_PBE if case.get("pbe") else RadsStorage.URL_DEFAULT
        self.index = {}     # (elem, version) -> release index
        n = 0
        with guard.disabled():
            os.makedirs(self.root)
            for elem, svs in sorted(case["solutions"].items()):
                listing = []
                for sv in svs:
                    n += 1
                    self.index[elem, sv["v"]] = n
                    listing.append(sv["v"])
                    d = os.path.join(self.root, "solutions", self.SLN[elem], "releases", sv["v"])
                    if sv.get("stored", True):
                        os.makedirs(d)
                        if sv["patch"] is not None and sv.get("cached", True):
                            with open(os.path.join(d, "_patch_version"), "w") as f:
                                f.write(vtext([] if case.get("pbe") else sv["patch"]) + "\n")
                    if elem == "client":
                        self._publish_client(sv, rng)
                rng.shuffle(listing)
                self.cdn.put(f"{self.base_url}solutions/{self.SLN[elem]}/releases/releaselisting", "".join(x + "\r\n" for x in listing).encode())
                if rng.random() < .5 and svs:
                    with open(os.path.join(self.root, "solutions", self.SLN[elem], "releases", "stray.txt") if os.path.isdir(os.path.join(self.root, "solutions", self.SLN[elem], "releases")) else os.path.join(self.root, "stray"), "w") as f:
                        f.write("x")

    def _publish_client(self, sv, rng):
        pv = "0.1." + sv["v"].split(".", 2)[2]
        u = self.base_url
        sm = ["RADS Solution Manifest", "1.0.0.0", "league_client_sln", sv["v"], "2", "league_client_en_us", pv, "10", "0", "league_client", pv, "0", "0",
              "1", "en_us", "0", "2", "league_client", "league_client_en_us"]
        self.cdn.put(f"{u}solutions/league_client_sln/releases/{sv['v']}/solutionmanifest", "\r\n".join(sm).encode() + b"\r\n")
        if sv["patch"] is None:
            return  # package manifest not available anymore
        base = f"projects/league_client/releases/{pv}"
        y = system_yaml(sv["patch"], rng)
        lines = ["PKG1", f"/{base}/files/a.txt,BIN_0x00000001,0,4,0", f"/{base}/files/system.yaml,BIN_0x00000001,4,{len(y)},0"]
        self.cdn.put(f"{u}{base}/packages/files/packagemanifest", "\r\n".join(lines).encode() + b"\r\n")
        self.cdn.put(f"{u}{base}/packages/files/BIN_0x00000001", b"aaaa" + y)

    def storage(self, line=None, fresh=False):
        from cdtb.rads import RadsStorage
        return RadsStorage(self.root, self.base_url)

    def abstract_history(self, stored):
        H = []
        for elem, svs in sorted(self.case["solutions"].items()):
            for sv in svs:
                known = sv["patch"] is not None or self.case.get("pbe")
                with guard.disabled():
                    there = os.path.isdir(os.path.join(self.root, "solutions", self.SLN[elem], "releases", sv["v"]))
                H.append({elem: [] if self.case.get("pbe") else sv["patch"]} if known and (there or not stored) else {})
        return H

    def elem_rec(self, line, e):
        return {"name": e.name, "rel": self.index.get((e.name, str(e.solution_version.version)), 0), "v": vnums(e.version)}


def answer(h, line, obj):
    """Answer of a lookup as in History.tla"""
    from cdtb.storage import Patch
    if obj is None:
        return {"kind": "none"}
    if isinstance(obj, Patch):
        return patch_rec(h, line, obj, kind=True)
    return dict(h.elem_rec(line, obj), kind="element")


def patch_rec(h, line, p, kind=False):
    elems = {}
    for e in p.elements:
        r = h.elem_rec(line, e)
        elems[e.name] = r["rel"] if r["v"] == vnums(p.version) and e.name not in elems else 0
    ret = {"v": vnums(p.version), "elems": elems}
    if kind:
        ret["kind"] = "patch"
    return ret
