"""Building WAD archives

An archive is {"version": [major, minor], "entries": [entry]}; an entry is
{"h": hash, "kind": raw|gz|zstd|redir|sub, "data": bytes, "subs": [{"data", "raw"}], "damage": ..., "index": first subchunk}
"""
import gzip
import random
import struct

import pyzstd
import xxhash


def lcu_hash(path):
    return xxhash.xxh64_intdigest(path)


def zstd(data):
    return pyzstd.compress(data)


KINDS = {"raw": 0, "gz": 1, "redir": 2, "zstd": 3, "sub": 4}


def build(wad, rng=None):
    """Archive content, and its description: {"blobs": [[off, len, how, hash, plain]], "toc": {index: [csize, size, hash]}, "ntoc"}"""
    rng = rng or random.Random(0)
    major, minor = wad["version"]
    entries = wad["entries"]
    head = {1: 8, 2: 100, 3: 268}[major]
    esize = 24 if major == 1 else 32
    # subchunk table
    toc, nxt = {}, 0
    payload = {}    # entry index -> [[bytes, how, plain]]
    for k, e in enumerate(entries):
        if e["kind"] == "sub":
            e.setdefault("index", nxt)
            parts = []
            for j, s in enumerate(e["subs"]):
                z = s["data"] if s.get("raw") else zstd(s["data"])
                if not s.get("raw") and len(z) == len(s["data"]):
                    z, s["raw"] = s["data"], True
                parts.append([z, "raw" if s.get("raw") else "zstd", s["data"]])
                h = xxhash.xxh3_64_intdigest(z)
                dmg = e.get("damage")
                csize = len(z)
                if dmg == "hash" and j == e.get("at", 0) % len(e["subs"]):
                    h ^= 1 << 17
                if dmg == "size" and j == e.get("at", 0) % len(e["subs"]):
                    csize += 1
                if not (dmg == "missing" and j == len(e["subs"]) - 1):
                    toc[e["index"] + j] = [csize, len(s["data"]), h]
            nxt = max(nxt, e["index"] + len(e["subs"]))
            payload[k] = parts
        elif e["kind"] == "redir":
            t = e["target"].encode() + b"\0" * e.get("pad", 0)
            payload[k] = [[struct.pack("<L", len(t)) + t, "redir", b""]]
        elif not e.get("toc"):
            d = e["data"]
            payload[k] = [[d if e["kind"] == "raw" else gzip.compress(d, mtime=0) if e["kind"] == "gz" else zstd(d), e["kind"], d]]
    ntoc = max(toc) + 1 if toc else 0
    tocdata = bytearray(16 * ntoc)
    for i, (c, s, h) in toc.items():
        struct.pack_into("<IIQ", tocdata, 16 * i, c, s, h)
    for k, e in enumerate(entries):
        if e.get("toc"):
            d = bytes(tocdata)
            payload[k] = [[d if e["kind"] == "raw" else gzip.compress(d, mtime=0) if e["kind"] == "gz" else zstd(d), e["kind"], d]]
    base = head + 4 + esize * len(entries)
    order = list(range(len(entries)))
    rng.shuffle(order)
    body = bytearray()
    off, csizes, blobs = {}, {}, []
    for k in order:
        gap = rng.choice([0, 0, 3, 16])
        body += bytes(rng.randrange(256) for _ in range(gap))
        same = [i for i in off if entries[i]["h"] == entries[k].get("same")]
        if same:
            off[k], csizes[k] = off[same[0]], csizes[same[0]]
            continue
        off[k] = base + len(body)
        n = 0
        for z, how, plain in payload[k]:
            blobs.append([base + len(body), len(z), how, "%016x" % xxhash.xxh3_64_intdigest(z), [] if entries[k].get("toc") else list(plain)])
            body += z
            n += len(z)
        if entries[k].get("damage") == "cut" and n > 0 and payload[k][-1][0]:
            body = body[:len(body) - 1]
            n -= 1
        if entries[k].get("damage") == "flip" and n > 0:
            body[len(body) - n] ^= 0xFF
        csizes[k] = n
    out = bytearray(b"RW" + bytes([major, minor]))
    out += bytes(rng.randrange(256) for _ in range(head - 4))
    out += struct.pack("<I", len(entries))
    for k, e in enumerate(entries):
        typ = e.get("type", KINDS[e["kind"]]) | (len(e.get("subs", ())) << 4)
        size = sum(len(s["data"]) for s in e["subs"]) if e["kind"] == "sub" else len(payload[k][0][2]) if k in payload else 0
        idx = e.get("index", rng.choice([0, 0, 7])) if e["kind"] == "sub" else 0
        if major == 1:
            out += struct.pack("<QIIII", e["h"], off[k], csizes[k], size, typ)
        elif major == 2 or minor <= 3:
            out += struct.pack("<QIIIB?HQ", e["h"], off[k], csizes[k], size, typ, bool(e.get("dup")), idx & 0xFFFF, e.get("sum", 0))
        else:
            out += struct.pack("<QIIIBBHQ", e["h"], off[k], csizes[k], size, typ, idx >> 16, idx & 0xFFFF, e.get("sum", 0))
    header = bytes(out)
    out += body
    return bytes(out), {"header": list(header), "blobs": blobs, "toc": {str(i): [c, s, "%016x" % h] for i, (c, s, h) in toc.items()}, "ntoc": ntoc}
