"""Hash guessers over generated lists and archives"""
import io
import os
import random
import re
from contextlib import redirect_stdout

import xxhash

from . import guard, waddrv

KIND_EXT = {"lcu": ".wad", "game": ".wad.client"}


def hx(h):
    return f"{h:016x}"


def ph(p):
    return xxhash.xxh64_intdigest(p.encode("utf-8"))


class Guessing:
    """lists: {"lcu"/"game": [[hash, path]]}; archives: [{"name", "version", "entries": [...]}] (see waddrv)"""

    def __init__(self, env, lists, archives, salt=0):
        import cdtb.hashes as H
        import cdtb.wad
        self.env, self.H = env, H
        cdtb.wad._hash_to_guessed_extensions.clear()
        self.files = {"lcu": H.hashfile_lcu, "game": H.hashfile_game}
        self.dir = env.path("wads")
        os.makedirs(self.dir)
        os.makedirs(str(H.default_hash_dir), exist_ok=True)
        self.set_lists(lists)
        self.archives = archives
        for a in archives:
            p = os.path.join(self.dir, a["name"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            for e in a["entries"]:
                if "sum" not in e:
                    e["sum"] = xxhash.xxh3_64_intdigest(e["data"]) if e["kind"] in ("raw", "gz", "zstd") else 7
            with open(p, "wb") as f:
                f.write(waddrv.build({"version": a["version"], "entries": a["entries"]}, random.Random(salt))[0])

    def set_lists(self, lists):
        for kind, hf in self.files.items():
            hf.hashes = None
            with open(str(hf.filename), "w", newline="") as f:
                for h, p in lists.get(kind, ()):
                    f.write(f"{h:016x} {p}\n")

    def reload(self):
        for hf in self.files.values():
            hf.hashes = None

    def cleanup(self):
        for hf in self.files.values():
            hf.hashes = None
            if os.path.exists(str(hf.filename)):
                os.remove(str(hf.filename))

    def file_pairs(self, kind):
        with open(str(self.files[kind].filename), encoding="utf-8", newline="") as f:
            return [(int(l.split(" ", 1)[0], 16), l.split(" ", 1)[1].rstrip("\n")) for l in f]

    def memory_pairs(self, kind):
        hf = self.files[kind]
        return list(hf.hashes.items()) if hf.hashes is not None else self.file_pairs(kind)

    def wads(self, names=None):
        from cdtb.wad import Wad
        return [Wad(os.path.join(self.dir, a["name"])) for a in self.archives if names is None or a["name"] in names]

    def archive_hashes(self, names=None):
        ret = []
        for a in self.archives:
            if names is None or a["name"] in names:
                kind = "game" if a["name"].endswith(".wad.client") else "lcu"
                ret.append({"kind": kind, "hashes": [hx(e["h"]) for e in a["entries"]]})
        return ret

    def cls(self, kind):
        return {"lcu": self.H.LcuHashGuesser, "game": self.H.GameHashGuesser}[kind]

    def printing(self, fn, *args, **kw):
        """Call, with pairs printed"""
        out = io.StringIO()
        with redirect_stdout(out):
            st, v = self.env.call(fn, *args, **kw)
        return st, v, printed(out.getvalue())

    @staticmethod
    def pairs(items):
        return [{"h": hx(h), "p": p} for h, p in items]


def printed(text):
    return [{"h": m.group(1), "p": m.group(2)} for m in re.finditer(r"^([0-9a-f]{16}) (.*)$", text, re.M)]
