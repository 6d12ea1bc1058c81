"""Encoding of release manifests, with arbitrary layouts, and of the bundles they describe"""
import random
import struct

import pyzstd

CDN_URL = "https://lol.dyn.riotcdn.net/"


class Asm:
    """Lay out objects in any order and resolve relative offsets between them"""

    def __init__(self, rng, shuffle=True, pad=True):
        self.rng = rng
        self.objs = []      # [label -> (bytearray, relocs)]
        self.shuffle = shuffle
        self.pad = pad

    def add(self, data, relocs=()):
        """relocs: (position, target label, kind) with kind in
        "self" (target - own position of the field), "back" (own object start - target)"""
        self.objs.append((bytearray(data), list(relocs)))
        return len(self.objs) - 1

    def link(self, first):
        order = list(range(len(self.objs)))
        order.remove(first)
        if self.shuffle:
            self.rng.shuffle(order)
        else:
            order.reverse()
        order.insert(0, first)
        out, pos = bytearray(), {}
        for i in order:
            if self.pad and out:
                out += bytes(self.rng.randrange(256) for _ in range(self.rng.choice([0, 0, 1, 3, 4])))
            pos[i] = len(out)
            out += self.objs[i][0]
        for i in order:
            for at, target, kind in self.objs[i][1]:
                v = pos[target] - (pos[i] + at) if kind == "self" else pos[i] - pos[target]
                struct.pack_into("<l", out, pos[i] + at, v)
        return bytes(out)


def _string(asm, s):
    b = s.encode("utf-8")
    return asm.add(struct.pack("<L", len(b)) + b)


def _object(asm, fields, rng, nfields):
    """Object with a field table. fields: {index: (fmt, value)}; fmt "str"/"ref" point to a label"""
    order = list(fields)
    if asm.shuffle:
        rng.shuffle(order)
    data, relocs, offs = bytearray(4), [], {}
    for i in order:
        if asm.pad and rng.random() < .3:
            data += b"\xAA" * rng.choice([1, 2, 4])
        fmt, v = fields[i]
        offs[i] = len(data)
        if fmt == "ref":
            relocs.append((len(data), v, "self"))
            data += b"\0\0\0\0"
        else:
            data += struct.pack(fmt, v)
    # trailing absent fields may be left out of the table
    n = nfields
    if asm.shuffle and rng.random() < .4:
        n = max(fields, default=-1) + 1
        n = rng.randint(n, nfields)
    vt = struct.pack("<HH", 4 + 2 * n, len(data)) + struct.pack(f"<{n}H", *[offs.get(i, 0) for i in range(n)])
    relocs.append((0, asm.add(vt), "back"))
    return asm.add(data, relocs)


def _table(asm, labels):
    data = struct.pack("<l", len(labels)) + b"\0" * (4 * len(labels))
    return asm.add(data, [(4 + 4 * i, lab, "self") for i, lab in enumerate(labels)])


def encode_body(m, rng, shuffle=True):
    """m: {bundles: [{id, chunks: [{id, size, target}]}], flags: [{id, name}],
    dirs: [{id, parent?, name}], files: [{id, name, dir?, size, mask, chunks: [id], link?}]}"""
    asm = Asm(rng, shuffle, shuffle)
    head = bytes(rng.randrange(256) for _ in range(rng.choice([0, 4, 16]) if shuffle else 0))
    bundles = []
    for b in m["bundles"]:
        chunks = [_object(asm, {0: ("<Q", c["id"]), 1: ("<L", c["size"]), 2: ("<L", c["target"])}, rng, 3) for c in b["chunks"]]
        bundles.append(_object(asm, {0: ("<Q", b["id"]), 1: ("ref", _table(asm, chunks))}, rng, 2))
    flags = []
    for fl in m["flags"]:
        vt = asm.add(struct.pack("<HHHH", 8, 12, 7, 8))
        lab = _string(asm, fl["name"])
        flags.append(asm.add(b"\0\0\0\0" + struct.pack("<xxxBl", fl["id"], 0), [(0, vt, "back"), (8, lab, "self")]))
    dirs = []
    for d in m["dirs"]:
        f = {0: ("<Q", d["id"]), 2: ("ref", _string(asm, d["name"]))}
        if d.get("parent") is not None:
            f[1] = ("<Q", d["parent"])
        dirs.append(_object(asm, f, rng, 3))
    files = []
    for x in m["files"]:
        f = {0: ("<Q", x["id"]), 2: ("<L", x["size"]), 3: ("ref", _string(asm, x["name"])),
             7: ("ref", asm.add(struct.pack(f"<L{len(x['chunks'])}Q", len(x["chunks"]), *x["chunks"])))}
        if x.get("dir") is not None:
            f[1] = ("<Q", x["dir"])
        if x.get("mask") is not None:
            f[4] = ("<Q", x["mask"])
        if x.get("link") is not None:
            f[9] = ("ref", _string(asm, x["link"]))
        if shuffle and rng.random() < .5:
            f[rng.choice([5, 6, 8, 10, 11, 12])] = ("<L", rng.randrange(2**32))
        files.append(_object(asm, f, rng, 13))
    tables = [_table(asm, bundles), _table(asm, flags), _table(asm, files), _table(asm, dirs), _table(asm, []), _table(asm, [])]
    top = asm.add(struct.pack("<l", len(head)) + head + b"\0" * 24,
                  [(4 + len(head) + 4 * i, t, "self") for i, t in enumerate(tables)])
    return asm.link(top)


def encode(m, rng=None, shuffle=True, version=(2, 0), magic=b"RMAN", trailer=b""):
    rng = rng or random.Random(0)
    body = encode_body(m, rng, shuffle)
    z = pyzstd.compress(body)
    head = struct.pack("<4sBBHLLQL", magic, version[0], version[1], 1 << 9, 28, len(z), 0x1234, len(body))
    return head + z + trailer


# -- whole releases --

class Release:
    """Builder of manifests and bundles from file contents.

    Chunk ids are a function of their content and of `salt`, as on the CDN (a chunk id names its content).
    """

    def __init__(self, rng, ids="big"):
        self.rng = rng
        self.chunk_of = {}      # content -> (chunk id, bundle id)
        self.bundles = {}       # bundle id -> [(chunk id, compressed, plain)]
        self.next = 0x1000
        self.ids = ids
        self.used = set()

    def new_id(self, kind):
        """Identifiers: "big" ones differ by their low bits; "small" ones have few digits, one being a prefix or suffix of others;
        "high" ones differ by their high bits only; "mixed": any"""
        self.next += 0x11
        if self.ids == "big":
            return (0xB if kind == "bundle" else 0xC) << 60 | self.next
        while True:
            how = self.ids if self.ids != "mixed" else self.rng.choice(["small", "high", "any"])
            i = {"small": lambda: self.rng.choice([self.rng.randrange(1, 40), int("".join(self.rng.choice("123") for _ in range(self.rng.randint(1, 4))), 16)]),
                 "high": lambda: self.rng.randrange(1, 2**20) << 44 | 0x77,
                 "any": lambda: self.rng.randrange(1, 2**64)}[how]()
            if (kind, i) not in self.used:
                self.used.add((kind, i))
                return i

    def new_bundle(self):
        bid = self.new_id("bundle")
        self.bundles[bid] = []
        return bid

    def chunk(self, content, bid, cid=None):
        """Chunk for a content, stored in a bundle if new"""
        if content in self.chunk_of:
            return self.chunk_of[content][0]
        cid = cid or self.new_id("chunk")
        self.bundles[bid].append((cid, pyzstd.compress(content), content))
        self.chunk_of[content] = (cid, bid)
        return cid

    def bundle_data(self, bid):
        return b"".join(z for _, z, _ in self.bundles[bid])

    def manifest(self, files, flags=()):
        """files: [{path, chunks: [content], flags: [flag name], link?}] -> abstract manifest for encode()"""
        flag_ids = {name: i + 1 for i, name in enumerate(flags)}
        dirs, out, used = {}, [], []
        for n, f in enumerate(files):
            *parents, name = f["path"].split("/")
            did = None
            for k in range(len(parents)):
                key = "/".join(parents[:k + 1])
                if key not in dirs:
                    dirs[key] = {"id": len(dirs) + 1, "parent": did, "name": parents[k]}
                did = dirs[key]["id"]
            cids = [self.chunk_of[c][0] for c in f["chunks"]]
            used += [self.chunk_of[c][1] for c in f["chunks"]]
            mask = sum(1 << (flag_ids[x] - 1) for x in f.get("flags", ())) or None
            out.append({"id": n + 1, "name": name, "dir": did, "size": sum(map(len, f["chunks"])),
                        "mask": mask, "chunks": cids, "link": f.get("link")})
        return {
            "bundles": [{"id": b, "chunks": [{"id": c, "size": len(z), "target": len(p)} for c, z, p in self.bundles[b]]}
                        for b in sorted(set(used) | set(self.bundles))],
            "flags": [{"id": i, "name": n} for n, i in flag_ids.items()],
            "dirs": list(dirs.values()), "files": out,
        }


def manifest_url(mid):
    return f"{CDN_URL}channels/public/releases/{mid:016X}.manifest"


def bundle_url(bid):
    return f"{CDN_URL}channels/public/bundles/{bid:016X}.bundle"


CLIENT_CONFIG = "https://clientconfig.rpg.riotgames.com/api/v1/config/public?namespace=keystone.products.league_of_legends.patchlines"


def sieve_url(platform):
    return f"https://sieve.services.riotcdn.net/api/v1/products/lol/version-sets/{platform}?q[platform]=windows&q[published]=true"
