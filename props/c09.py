"""C09: manifest decoding recovers the described files exactly"""
import random

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): specification of manifest contents, trace validation of PatcherManifest on encoded manifests"
NOTE = ("The specification computes the described files (paths through parent directories, flags, chunk places) from the abstract "
        "manifest; the harness encodes it with randomized table layouts and TLC compares what the real decoder returns. The encoder "
        "is trusted.")
RULE = ("random abstract manifests (0-5 bundles, 0-8 chunks each, nested directories, flags up to id 64, links, repeated chunks), each "
        "encoded with several layouts, through a path and a file object; headers with wrong magic or versions; non-trivial: a manifest with a file")
ASSUMPTIONS = ["chunk ids are unique in a manifest, no two files have the same path"]


def designs(g):
    yield "MC_Manifest", "MC_Manifest.cfg", {}


def gen_manifest(rng):
    nid = [0]

    def uid():
        nid[0] += 1
        # (the first small identifier is 0)
        return (rng.randrange(2**63) << 1 | 1) if rng.random() < .7 else nid[0] - 1
    bundles, ids = [], set()
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        chunks = []
        for _ in range(rng.choice([0, 1, 2, 3, 8])):
            i = uid()
            while i in ids:
                i = uid()
            ids.add(i)
            chunks.append({"id": i, "size": rng.choice([0, 1, 2, 255, 65536, rng.randrange(2**26)]), "target": rng.choice([0, 1, 2**31, 2**32 - 1, rng.randrange(2**20)])})
        bundles.append({"id": uid(), "chunks": chunks})
    all_chunks = [c["id"] for b in bundles for c in b["chunks"]]
    fnames = ["de_DE", "en_US", "fr_FR", "windows", "macos", "ko_KR", "x", ""]
    flag_ids = rng.sample(range(1, 65), rng.choice([0, 1, 3, 8]))
    flags = [{"id": i, "name": rng.choice(fnames) + (str(i) if rng.random() < .2 else "")} for i in flag_ids]
    dirs = []
    for k in range(rng.choice([0, 0, 1, 2, 6])):
        parent = rng.choice(dirs)["id"] if dirs and rng.random() < .75 else None
        i = uid()
        while i in [d["id"] for d in dirs]:
            i = uid()
        dirs.append({"id": i, "parent": parent, "name": rng.choice(["a", "DATA", "Plugins", "é", "x y", "assets"]) + (str(k) if rng.random() < .5 else "")})
    rng.shuffle(dirs)
    files, seen = [], set()

    def path(f):
        p, d = f["name"], f["dir"]
        while d is not None:
            dd = next(x for x in dirs if x["id"] == d)
            p, d = dd["name"] + "/" + p, dd["parent"]
        return p
    for k in range(rng.choice([0, 1, 2, 4, 10])):
        f = {"id": uid(), "name": rng.choice(["a.txt", "B.wad", "c", "éà.json", "d.wad.client", "a"]), "dir": rng.choice(dirs)["id"] if dirs and rng.random() < .7 else None,
             "size": rng.choice([0, 1, 2**32 - 1, rng.randrange(2**31)]),
             "mask": None if rng.random() < .3 or not flag_ids else sum(1 << (i - 1) for i in rng.sample(flag_ids, rng.randint(0, len(flag_ids)))),
             "chunks": [rng.choice(all_chunks) for _ in range(rng.choice([0, 1, 2, 5]))] if all_chunks else [],
             "link": rng.choice([None, None, "", "target/x"])}
        if path(f) not in seen:
            seen.add(path(f))
            files.append(f)
    return {"bundles": bundles, "flags": flags, "dirs": dirs, "files": files}


def cases(g):
    rng = g.rng
    for _ in range(g.pick(400, 4000)):
        yield {"kind": "decode", "m": gen_manifest(rng), "layouts": [rng.randrange(2**31) for _ in range(4)]}
    heads = []
    for magic in ("RMAN", "RMAM", "rman", "RM\0\0", "NAMR"):
        for major in (0, 1, 2, 3, 255):
            for minor in (0, 1, 2, 255):
                heads.append([magic, major, minor])
    yield {"kind": "header", "heads": heads}


def nontrivial(case, trace):
    return case["kind"] == "header" or bool(case["m"]["files"])


def absm(m):
    """Abstract manifest as given to TLC"""
    h = lambda n: "" if n is None else "%x" % n
    return {
        "bundles": [{"id": h(b["id"]), "chunks": [{"id": h(c["id"]), "size": c["size"], "target": h(c["target"])} for c in b["chunks"]]} for b in m["bundles"]],
        "flags": [{"id": h(f["id"]), "name": f["name"]} for f in m["flags"]],
        "dirs": [{"id": h(d["id"]), "parent": h(d["parent"]), "name": d["name"]} for d in m["dirs"]],
        "files": [{"name": f["name"], "dir": h(f["dir"]), "size": h(f["size"]), "link": f["link"] or "",
                   "mask": [h(i + 1) for i in range(64) if (f["mask"] or 0) >> i & 1], "chunks": [h(c) for c in f["chunks"]]} for f in m["files"]],
    }


def chunk(c):
    return {"id": "%x" % c.chunk_id, "bundle": "%x" % c.bundle.bundle_id, "offset": c.offset, "size": c.size, "target": "%x" % c.target_size}


def run(case, env):
    import io
    from cdtb.patcher import PatcherManifest
    from vlib import rman, guard
    ev = []
    if case["kind"] == "header":
        rng = random.Random(1)
        m = gen_manifest(rng)
        for magic, major, minor in case["heads"]:
            data = rman.encode(m, rng, version=(major, minor), magic=magic.encode())
            st, _ = env.call(PatcherManifest, io.BytesIO(data))
            ev.append({"op": "header", "magic": magic, "major": major, "minor": minor, "status": st})
        return {"ev": ev}
    for k, seed in enumerate(case["layouts"]):
        rng = random.Random(seed)
        data = rman.encode(case["m"], rng, shuffle=k > 0, version=(2, k % 2), trailer=b"\0" * (k * 3))
        if k == 1:
            with guard.disabled(), open(env.path("m"), "wb") as f:
                f.write(data)
            st, man = env.call(PatcherManifest, env.path("m"))
        else:
            st, man = env.call(PatcherManifest, io.BytesIO(data))
        e = {"op": "decode", "m": absm(case["m"]), "status": st}
        if st == "ok":
            e["files"] = [{"path": p, "size": "%x" % f.size, "link": f.link or "", "flags": list(f.flags or []), "chunks": [chunk(c) for c in f.chunks]} for p, f in man.files.items()]
            e["names_match"] = all(p == f.name for p, f in man.files.items())
            e["bundles"] = [{"id": "%x" % b.bundle_id, "chunks": [chunk(c) for c in b.chunks]} for b in man.bundles]
            e["chunks"] = [dict(chunk(c), id="%x" % i) for i, c in man.chunks.items()]
            e["flags"] = [{"id": "%x" % i, "name": n} for i, n in man.flags.items()]
        ev.append(e)
    return {"ev": ev}
