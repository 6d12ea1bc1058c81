"""RADS worlds: projects with packages, and solutions"""
import os
import random
import zlib
import gzip

from . import guard
from .cdn import Cdn
from .patcherdrv import tok_content

STORE = "rstore"


def content(tokens):
    return b"".join(tok_content(t) for t in tokens)


class RadsWorld:
    """world: {"projects": [{"name", "version", "entries": [{"file", "package": n, "toks": [..], "z": "zlib"|"gzip"|"", "gap": n}],
    "order": permutation}], "solutions": [{"name", "version", "projects": [[name, version, required]], "langs": {lang: [names]}}]}
    Entries are laid out in their packages in the given order, after a gap.
    """

    def __init__(self, world, env, url=None, store=STORE):
        from cdtb.rads import RadsStorage
        self.world, self.env = world, env
        self.root = env.path(store)
        self.cdn = Cdn()
        self.url = url or RadsStorage.URL_DEFAULT
        self.plain = {}         # storage path -> content
        self.package_of = {}    # storage path -> url
        self.package_data = {}  # url -> bytes
        self.items = {}         # directory of a project version -> [[storage path, url]]
        rng = random.Random(11)
        with guard.disabled():
            os.makedirs(self.root, exist_ok=True)
        listings = {}
        for p in world["projects"]:
            base = f"projects/{p['name']}/releases/{p['version']}"
            listings.setdefault(f"projects/{p['name']}/releases/releaselisting", []).append(p["version"])
            packs, lines = {}, []
            for e in p["entries"]:
                data = content(e["toks"])
                raw = e.get("raw")
                if raw is not None:
                    data = raw.encode()
                z = {"": lambda d: d, "zlib": lambda d: zlib.compress(d, e.get("level", 6)), "gzip": lambda d: gzip.compress(d, mtime=0)}[e.get("z", "")](data)
                pk = f"BIN_0x{e['package']:08x}"
                buf = packs.setdefault(pk, bytearray())
                buf += bytes(rng.randrange(256) for _ in range(e.get("gap", 0)))
                path = f"{e.get('base', base)}/{e['file']}"
                lines.append(f"/{path}{'.compressed' if e.get('z') else ''},{pk},{len(buf)},{len(z)},{e.get('type', 0)}")
                buf += z
                self.plain[path] = data
                self.package_of[path] = f"{self.url}{base}/packages/files/{pk}"
                self.items.setdefault(base, []).append([path, self.package_of[path]])
            order = p.get("order") or list(range(len(lines)))
            man = ["PKG1"] + [lines[i] for i in order]
            self.cdn.put(f"{self.url}{base}/packages/files/packagemanifest", ("\n".join(man) + "\n").encode())
            self.cdn.put(f"{self.url}{base}/releasemanifest", b"RLSM " + base.encode())
            for pk, buf in packs.items():
                u = f"{self.url}{base}/packages/files/{pk}"
                buf += bytes(rng.randrange(256) for _ in range(p.get("tail", 0)))
                self.package_data[u] = bytes(buf)
                self.cdn.put(u, bytes(buf))
        for s in world.get("solutions", []):
            listings.setdefault(f"solutions/{s['name']}/releases/releaselisting", []).append(s["version"])
            self.cdn.put(f"{self.url}solutions/{s['name']}/releases/{s['version']}/solutionmanifest", self.manifest(s))
        for path, l in listings.items():
            self.cdn.put(self.url + path, "".join(x + "\r\n" for x in l).encode())

    @staticmethod
    def manifest(s):
        lines = [s.get("magic", "RADS Solution Manifest"), s.get("mversion", "1.0.0.0"), s.get("mname", s["name"]), s.get("msversion", s["version"]), str(len(s["projects"]))]
        for name, version, required in s["projects"]:
            lines += [name, version, "0" if required else "10", "0"]
        lines.append(str(len(s["langs"])))
        for lang, names in s["langs"].items():
            lines += [lang, "0", str(len(names))] + names
        for at, text in s.get("damage", []):
            if text is None:
                del lines[at:]
            elif at < len(lines):
                lines[at] = text
        return ("\r\n".join(lines) + "\r\n").encode()

    def storage(self):
        from cdtb.rads import RadsStorage
        return RadsStorage(self.root, self.url)

    def project_version(self, p, storage=None):
        from cdtb.rads import RadsProject, RadsProjectVersion, RadsVersion
        return RadsProjectVersion(RadsProject(storage or self.storage(), p["name"]), RadsVersion(p["version"]))

    def solution_version(self, s, storage=None):
        from cdtb.rads import RadsSolution, RadsSolutionVersion, RadsVersion
        return RadsSolutionVersion(RadsSolution(storage or self.storage(), s["name"]), RadsVersion(s["version"]))


def gen_entries(rng, nfiles, npk, prefix="files", empties=True):
    ret = []
    for i in range(nfiles):
        toks = [rng.choice(["a0", "a1", "b0", "b1", "c0", "c1", "d0"]) for _ in range(rng.choice([0, 1, 1, 2, 3] if empties else [1, 2, 3]))]
        e = {"file": f"{prefix}/{rng.choice(['', 'DATA/', 'Deploy/x/'])}F{i}.{rng.choice(['txt', 'WAD', 'yaml'])}", "package": rng.randint(1, npk), "toks": toks,
             "gap": rng.choice([0, 0, 0, 1, 17, 300])}
        r = rng.random()
        if r < .45:
            e["z"] = rng.choice(["zlib", "zlib", "gzip"])
        ret.append(e)
    return ret


def gen_project(rng, name="proj", version="0.0.0.1", nfiles=None):
    n = rng.choice([1, 2, 3, 5, 8]) if nfiles is None else nfiles
    ents = gen_entries(rng, n, rng.choice([1, 1, 2, 3]))
    order = list(range(n))
    if rng.random() < .7:
        rng.shuffle(order)
    return {"name": name, "version": version, "entries": ents, "order": order, "tail": rng.choice([0, 0, 5, 100])}
