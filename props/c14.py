"""C14: WAD extraction writes each file under its own right name"""

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): naming, selection and extraction specified and checked; behaviours of the model and random archives replayed on wad-extract and wad-list"
NOTE = ("Names (extensions, guessed formats, .cdtb marker, unknown/, shell patterns) are specified on texts in TLA+. TLC checks that names never collide "
        "or conflict with directories and that extractions give exactly the selected files. Histories of extractions (selections, lazy, files removed or "
        "overwritten in between, write faults) are replayed on the real code; every file under the working directory is accounted for.")
RULE = ("archives with known and unknown entries, every recognized format, JSON, unreadable entries, redirections, names without extension, over-long names; "
        "through the command line and the Wad class; non-trivial: at least two extractions")
ASSUMPTIONS = ["known paths are relative, distinct and in ASCII; a path with an extension is not the directory of another one",
               "hash lists are right", "extensions are shorter than 200 characters"]


def designs(g):
    yield "MC_WadNames", "MC_WadNames_thorough.cfg" if g.thorough else "MC_WadNames.cfg", {"workers": 4}


MAGICS = [b'\xff\xd8\xff\xdb', b'\xff\xd8\xff\xe1', b'\xff\xd8\xff\xe0..JFIF', b'......Exif', b'\x89PNG\r\n\x1a\n', b'GIF87a', b'GIF89a', b'OggS', bytes.fromhex('00010000'),
          bytes.fromhex('1a45dfa3'), b'true', b'OTTO\0', b'"use strict";', b'<template ', b'<!-- Elements -->', b'<!DOCTYPE html>', b'<html', b'DDS ', b'<svg',
          b'PROP', b'PTCH', b'BKHD', b'r3d2Mesh', b'r3d2anmd', b'r3d2canm', b'r3d2sklt', b'r3d2', bytes.fromhex('33221100'), b'PreLoadBuildingBlocks = {',
          b'\x1bLuaQ\x00\x01\x04\x04', b'\x1bLuaQ\x00\x01\x04\x08', bytes.fromhex('023d0028'), b'[ObjectBegin]', b'OEGM', b'TEX\0', b'\0asm', b'UnityFS',
          b'UnityWebData1.0']
JSONS = [b'{"n": %d}', b'[%d]', b'%d', b' {"a": [1, 2, {"b": %d}]}', b'"x%d"', b'\xef\xbb\xbf{"b": %d}', b'{"\xc3\xa9": %d}']
NAMES = ["a", "b.txt", "c.dds", ".h", ".h.x", "noext", "x.y.z", "README", "data", "d.bin", "E.TXT", "u_1", "a b.txt", "trail."]


def content(rng, k):
    """(data, is json)"""
    r = rng.random()
    if r < .5:
        return rng.choice(MAGICS) + b" %d" % k + bytes(rng.randrange(1, 256) for _ in range(rng.randint(0, 6))), False
    if r < .75:
        t = rng.choice(JSONS) % (1000 + k)
        return t, True
    if r < .8:
        return b"\x01x%d" % k, False
    return bytes([1 + k]) + bytes(rng.randrange(256) for _ in range(rng.randint(1, 30))), False


def known_path(rng, used):
    while True:
        p = "/".join(rng.choice(["a", "b", "data", "noext", "x.d", "Assets"]) for _ in range(rng.randint(0, 3)))
        n = rng.choice(NAMES)
        r = rng.random()
        if r < .12:
            n = rng.choice("kq") * rng.choice([240, 244, 245, 246, 249, 250, 251, 255, 256, 300]) + rng.choice(["", ".txt", ".dds", ".x"])
        elif r < .15:
            p = "w" * rng.choice([255, 256, 260])
        p = f"{p}/{n}" if p else n
        # a path with an extension (as seen by the code) is not a directory of another one
        dirs = {q.rsplit("/", i)[0] for q in used | {p} for i in range(1, q.count("/") + 1)}
        if p in used or any(q in dirs for q in used | {p} if "." in q.rsplit("/", 1)[-1].lstrip(".")):
            continue
        return p


def gen_sel(rng, paths):
    pats = []
    if rng.random() < .4:
        for _ in range(rng.choice([1, 1, 2])):
            q = rng.choice(sorted(paths) or ["x"])
            pats.append(rng.choice([q[:60], q[:rng.randint(0, min(len(q), 40))] + "*", "*" + q[-rng.randint(1, 12):], q[:20].replace("a", "?") + "*", "*.TXT", "*/*", "*"]))
    return {"unknown": rng.choice(["yes", "yes", "yes", "only", "no"]), "patterns": [p for p in pats if "[" not in p]}


def cases(g):
    rng = g.rng
    scen = g.scenarios("MC_WadNames", "MC_WadNames_gen.cfg", simulate=g.pick(60, 600), depth=12)
    rng.shuffle(scen)
    for s in scen[:g.pick(250, 4000)]:
        entries = []
        for k, e in enumerate(s["es"]):
            data = bytes(e["head"]) + b" %d" % k if e["head"] or not e["readable"] else b""
            if e["json"]:
                data = b'{"k": %d}' % k
            entries.append({"h": int(e["h"], 16), "path": e["path"], "data": data, "json": e["json"], "readable": e["readable"], "kind": rng.choice(["raw", "gz", "zstd", "sub"])})
        yield {"entries": entries, "ops": [dict(o, cli=rng.random() < .5) for o in s["ops"]], "initial": {}, "salt": rng.getrandbits(30), "lcu": rng.random() < .5, "out": rng.choice(["out", "", "o/p"])}
    for _ in range(g.pick(350, 4000)):
        used, entries = set(), []
        n = rng.choice([1, 2, 3, 5, 8])
        for k in range(n):
            path = ""
            if rng.random() < .65:
                path = known_path(rng, used)
                used.add(path)
            data, js = content(rng, k)
            readable = rng.random() > .1
            entries.append({"h": rng.getrandbits(64) if rng.random() < .9 else rng.getrandbits(20), "path": path, "data": data, "json": js, "readable": readable,
                            "kind": rng.choice(["raw", "gz", "zstd", "sub"]), "redir": not readable and rng.random() < .5})
        if rng.random() < .15:   # an entry whose compressed data is corrupted: extracting it may fail
            path = known_path(rng, used)
            if "." in path.rsplit("/", 1)[-1].strip("."):
                used.add(path)
                entries.insert(rng.randrange(len(entries) + 1), {"h": rng.getrandbits(64), "path": path, "data": b"corrupted entry %d" % k, "json": False, "readable": False,
                                                                 "kind": rng.choice(["gz", "zstd"]), "corrupt": rng.choice(["cut", "flip"])})
        if rng.random() < .3:   # same long prefix: only the hash makes them different
            p = "z" * 252
            entries.append({"h": rng.getrandbits(64), "path": p + "1.txt", "data": b"L1", "json": False, "readable": True, "kind": "raw"})
            entries.append({"h": rng.getrandbits(64), "path": p + "2.txt", "data": b"L2", "json": False, "readable": True, "kind": "gz"})
        if len({e["h"] for e in entries}) < len(entries):
            continue
        paths = {e["path"] for e in entries if e["path"]}
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            r = rng.random()
            if r < .65:
                op = {"o": "extract", "sel": gen_sel(rng, paths), "lazy": rng.random() < .4, "cli": rng.random() < .6}
                if rng.random() < .15:
                    op["fault"] = {"at": rng.randint(1, 25), "when": rng.choice(["before", "half", "after"])}
                ops.append(op)
            elif r < .75:
                ops.append({"o": "list"})
            else:
                ops.append({"o": rng.choice(["remove", "junk"]), "name": "?"})
        initial = {}
        for p in sorted(paths):
            if rng.random() < .1 and len(p.rsplit("/", 1)[-1]) < 200 and all(len(x) < 250 for x in p.split("/")) and "." in p.rsplit("/", 1)[-1].strip("."):
                initial[p] = rng.choice(["old", "stale"])
        if rng.random() < .2:
            initial["stray/s.txt"] = "stray"
        yield {"entries": entries, "ops": ops, "initial": initial, "salt": rng.getrandbits(30), "lcu": rng.random() < .5, "out": rng.choice(["out", "", "o/p"])}


def nontrivial(case, trace):
    return sum(o["o"] == "extract" for o in case["ops"]) > 1


def run(case, env):
    import os
    import random
    from vlib import faults, guard, waddrv
    from vlib.wenv import fstree
    rng = random.Random(case["salt"])
    ents, es = [], []
    tok = {}
    toc_h = 0x1111
    for k, e in enumerate(case["entries"]):
        kind = e["kind"]
        d = {"h": e["h"], "kind": kind}
        t = "t%d" % k
        if not e["readable"]:
            if e.get("corrupt"):
                d.update(data=e["data"], damage=e["corrupt"])
            elif e.get("redir"):
                d.update(kind="redir", target="x/y.txt")
            else:
                d.update(kind="sub", subs=[{"data": e["data"] + b"?", "raw": False}], damage="hash")
        elif kind == "sub":
            n = max(1, len(e["data"]) // 2)
            d["subs"] = [{"data": e["data"][:n], "raw": rng.random() < .5}, {"data": e["data"][n:], "raw": True}]
        else:
            d["data"] = e["data"]
        if e["readable"]:
            t = tok.setdefault(e["data"], t)
        ents.append(d)
        es.append({"h": "%016x" % e["h"], "path": e["path"], "head": list(e["data"][:26]), "json": e["json"], "readable": e["readable"], "tok": t})
    ents.append({"h": toc_h, "kind": "raw", "toc": True})
    data, desc = waddrv.build({"version": [3, 4], "entries": ents}, rng)
    hashes = {e["h"]: e["path"] for e in case["entries"] if e["path"]}
    hashes[toc_h] = "x.subchunktoc"
    hashes[0x42] = "other/unused.txt"
    tocdata = b"".join(int(v[0]).to_bytes(4, "little") + int(v[1]).to_bytes(4, "little") + int(v[2], 16).to_bytes(8, "little")
                       for _, v in sorted(desc["toc"].items(), key=lambda kv: int(kv[0])))
    es.append({"h": "%016x" % toc_h, "path": "x.subchunktoc", "head": list(tocdata[:26]), "json": False, "readable": True, "tok": tok.setdefault(tocdata, "toc")})
    name = "my.wad" if case["lcu"] else "my.wad.client"
    out = case["out"] or name.rsplit(".", 1)[0]
    import cdtb.wad
    import cdtb.hashes
    cdtb.wad._hash_to_guessed_extensions.clear()
    default = cdtb.hashes.hashfile_lcu if case["lcu"] else cdtb.hashes.hashfile_game
    other = cdtb.hashes.hashfile_game if case["lcu"] else cdtb.hashes.hashfile_lcu
    with guard.disabled():
        with open(env.path(name), "wb") as f:
            f.write(data)
        with open(env.path("hashes.txt"), "w") as f:
            for h, p in hashes.items():
                f.write(f"{h:016x} {p}\n")
        with open(env.path("wrong.txt"), "w") as f:
            f.write(f"{0x42:016x} nothing\n")
        for p, t in case["initial"].items():
            q = env.path(out, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "w") as f:
                f.write(t)
    default.filename, default.hashes = env.path("hashes.txt"), None
    other.filename, other.hashes = env.path("wrong.txt"), None
    inputs = {name, "hashes.txt", "wrong.txt"}

    def token(b):
        return tok.get(b) or "junk:" + b.hex()[:40]

    def tree():
        with guard.disabled():
            return {p: v[1] if v[0] == "f" else "?" + v[0] for p, v in fstree(env.dir, token).items() if p not in inputs and v[0] != "d"}
    cur = tree()
    first = cur
    ev = []
    from cdtb.wad import Wad
    for o in case["ops"]:
        kind = o["o"]
        if kind in ("remove", "junk"):
            names = sorted(p for p in cur if len(p) < 200)
            p = o["name"] and f"{out}/{o['name']}"
            if p not in cur:
                if not names:
                    continue
                p = rng.choice(names)
            with guard.disabled():
                if kind == "remove":
                    os.remove(env.path(p))
                else:
                    with open(env.path(p), "w") as f:
                        f.write("junk %d" % len(ev))
            cur = tree()
            ev.append({"op": "disturb", "tree": cur})
            continue
        if kind == "list":
            st, text, _ = env.cli(["wad-list", name] + (["-H", "hashes.txt"] if rng.random() < .5 else []))
            ev.append({"op": "list", "status": st, "out": text.splitlines()})
            continue
        sel = o["sel"]
        fault = o.get("fault")
        ctx = faults.FsFaults(faults.Counter(at=fault["at"], kind="error", when=fault["when"], root=env.dir)) if fault else None

        def again(fn):
            if ctx is None:
                return fn()
            with ctx:
                return fn()
        if kind == "extract" and o["cli"]:
            args = ["wad-extract", name]
            if case["out"]:
                args += ["-o", out]
            if rng.random() < .5:
                args += ["-H", "hashes.txt"]
            for p in sel["patterns"]:
                args += ["-p", p]
            if sel["unknown"] != "yes" or rng.random() < .3:
                args += ["-u", sel["unknown"]]
            if o["lazy"]:
                args.append("--lazy")
            st, _, err = again(lambda: env.cli(args))
        else:
            import fnmatch

            def once():
                wad = Wad(name, hashes)
                if sel["unknown"] != "yes" or sel["patterns"]:
                    wad.files = [f for f in wad.files if (sel["unknown"] == "yes" or (f.path is None) == (sel["unknown"] == "only"))
                                 and (not sel["patterns"] or f.path is not None and any(fnmatch.fnmatchcase(f.path, p) for p in sel["patterns"]))]
                wad.guess_extensions()
                wad.extract(env.path(out), overwrite=not o["lazy"])
            st, _ = again(lambda: env.call(once))
        cur = tree()
        ev.append({"op": "extract", "sel": sel, "lazy": o["lazy"], "status": st, "faulted": bool(fault) or any(e.get("corrupt") for e in case["entries"]), "tree": cur})
    return {"es": es, "out": out, "tree": first, "ev": ev}
