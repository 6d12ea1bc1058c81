"""C13: WAD decoding returns each entry's stored content"""

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): byte-level archive format specified and checked (round trip, isolation of damages); archives it generates and random ones read by the real code"
NOTE = ("The header is decoded and contents are located in TLA+, from the bytes themselves (decompression is given by the table of stored blobs). "
        "TLC checks round trip and isolation of damaged entries for all archives of 2 (3) entries, every format version; archives of the model and "
        "random ones are read, whole and entry by entry, by the real code.")
RULE = ("versions 1 to 3.4, every kind of entry, shared data, subchunks stored or compressed, damaged in the table or in the data, far subchunk indexes, "
        "with and without subchunk table; damaged or cut headers; non-trivial: subchunks or at least 3 entries")
ASSUMPTIONS = ["two different stored blocks have different XXH3 hashes", "compressed data of entries is valid (subchunks apart)"]

VERSIONS = [[1, 0], [2, 0], [2, 1], [3, 0], [3, 1], [3, 3], [3, 4], [3, 5]]
TOC = "data/final/x.wad.subchunktoc"


def designs(g):
    yield "MC_Wad", "MC_Wad_thorough.cfg" if g.thorough else "MC_Wad.cfg", {"workers": 4}


def text(rng, n=None):
    n = rng.choice([0, 1, 2, 5, 9, 20, 40]) if n is None else n
    r = rng.random()
    return bytes([rng.randrange(256) for _ in range(n)]) if r < .5 else bytes([rng.randrange(256)]) * n


def random_entry(rng, version):
    kind = rng.choice(["raw", "gz", "zstd", "redir"] + (["sub"] * 4 if version[0] > 1 else []))
    e = {"h": rng.getrandbits(64), "kind": kind, "sum": rng.getrandbits(64), "dup": rng.random() < .2}
    if kind == "sub":
        e["subs"] = [{"data": text(rng), "raw": rng.random() < .4} for _ in range(rng.choice([1, 1, 2, 3, 5, 15]))]
        if rng.random() < .3:
            e["damage"] = rng.choice(["hash", "size", "missing", "cut"])
            e["at"] = rng.randrange(15)
    elif kind == "redir":
        e["target"], e["pad"] = "assets/other/é.txt", rng.choice([0, 1, 3])
    else:
        e["data"] = text(rng)
    return e


def finish(rng, version, entries, toc):
    subs = any(e["kind"] == "sub" for e in entries)
    if toc and (subs or rng.random() < .2):
        entries.insert(rng.randint(0, len(entries)), {"h": rng.getrandbits(64), "kind": rng.choice(["raw", "gz", "zstd"]), "toc": True, "sum": rng.getrandbits(64)})
    h = {e["h"] for e in entries}
    if len(h) < len(entries):
        return None
    return {"wad": {"version": version, "entries": entries}, "toc": toc, "salt": rng.getrandbits(30), "header_damage": None}


def cases(g):
    rng = g.rng
    scen = g.scenarios("MC_Wad", "MC_Wad_gen.cfg", simulate=g.pick(60, 600), depth=8)
    rng.shuffle(scen)
    for s in scen[:g.pick(300, 5000)]:
        entries = []
        for k, a in enumerate(s["es"]):
            e = {"h": rng.getrandbits(64), "kind": a["kind"], "sum": rng.getrandbits(64)}
            if a["kind"] == "sub":
                e["subs"] = [{"data": text(rng), "raw": x == "raw"} for x in a["subs"]]
                if s["damage"][0] == k + 1:
                    e["damage"] = s["damage"][1]
            elif a["kind"] == "redir":
                e["target"] = "x"
            else:
                e["data"] = text(rng)
            entries.append(e)
        yield finish(rng, s["ver"], entries, s["toc"])
    for i in range(g.pick(500, 6000)):
        version = rng.choice(VERSIONS)
        entries = [random_entry(rng, version) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))]
        if len(entries) > 1 and rng.random() < .3:
            a, b = rng.sample(range(len(entries)), 2)
            if entries[a]["kind"] == entries[b]["kind"] and entries[a]["kind"] != "sub":
                entries[a] = dict(entries[b], h=rng.getrandbits(64), same=entries[b]["h"])
        if entries and rng.random() < .06:
            # of a type which does not exist
            rng.choice(entries)["type"] = rng.randrange(5, 16)
        c = finish(rng, version, entries, rng.random() < .75)
        if i % 60 == 0 and version == [3, 4] or i % 200 == 1:
            subs = [e for e in entries if e["kind"] == "sub"]
            if subs and version[0] == 3 and version[1] > 3:
                subs[-1]["index"] = rng.choice([65536, 65540, 131072, 65535 - len(subs[-1]["subs"]) // 2])
        if rng.random() < .12:
            c["header_damage"] = rng.choice(["magic", "version", "cut"])
        yield c


def nontrivial(case, trace):
    es = case["wad"]["entries"]
    return len(es) > 2 or any(e["kind"] == "sub" for e in es)


def run(case, env):
    import random
    from vlib import guard, waddrv
    rng = random.Random(case["salt"])
    data, desc = waddrv.build(case["wad"], rng)
    header = desc["header"]
    if case["header_damage"] == "magic":
        data = rng.choice([b"RX", b"WR", b"\0\0", b"rw"]) + data[2:]
    elif case["header_damage"] == "version":
        data = data[:2] + bytes([rng.choice([0, 4, 5, 255])]) + data[3:]
    elif case["header_damage"] == "cut":
        data = data[:rng.randrange(len(header))]
    seen = list(data[:len(header)])
    path = env.path("x.wad.client")
    with guard.disabled():
        with open(path, "wb") as f:
            f.write(data)
    hashes = {e["h"]: "a/b.txt" for e in case["wad"]["entries"] if e["h"] % 3 == 0 and not e.get("toc")}
    if case["toc"]:
        hashes.update({e["h"]: TOC for e in case["wad"]["entries"] if e.get("toc")})
    from cdtb.wad import Wad
    st, wad = env.call(Wad, path, hashes)
    out = []
    if st == "ok":
        for wf in wad.files:
            out.append({"h": "%016x" % wf.path_hash, "size": wf.size, "csize": wf.compressed_size, "type": wf.type, "nsub": wf.subchunk_count,
                        "sum": "none" if wf.sha256 is None else "%016x" % wf.sha256})
    ev = [{"op": "decode", "header": seen, "status": st, "out": out}]
    has_toc = case["toc"] and any(e.get("toc") for e in case["wad"]["entries"])
    if st == "ok" and case["header_damage"] is None:
        order = list(range(len(wad.files)))
        rng.shuffle(order)
        with open(path, "rb") as f:
            for i in order:
                if case["wad"]["entries"][i].get("toc"):
                    continue    # described by the table
                st, d = env.call(wad.read_file_data, f, wad.files[i])
                ev.append({"op": "read", "i": i + 1, "status": st, "none": st != "ok" or d is None, "data": list(d) if st == "ok" and d is not None else []})
    return {"header": header, "blobs": desc["blobs"], "toc": desc["toc"] if has_toc else {}, "hasToc": has_toc, "ev": ev}
