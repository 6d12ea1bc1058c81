"""C10: RADS package extraction gives each file its own bytes"""

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): streaming reader model-checked over all layouts, block boundaries and cuts; generated layouts and schedules of blocks replayed on the real extraction"
NOTE = ("TLC checks the reader (skip, copy, buffer, cut) against the declarative outcome for all packages of 5 (7) bytes, up to 3 ranges, all block partitions "
        "and all cuts. Layouts, partitions and cuts it generates for 12 (scaled) bytes and random packages are extracted by the real code from a fake CDN "
        "delivering exactly these blocks; files and requests are validated.")
RULE = ("layouts (gaps, empty files, adjacent ranges), several packages, manifest orders, block partitions, files present beforehand, streams cut or failing, "
        "compressed and raw entries; each followed by a rerun; non-trivial: at least two files to extract")
ASSUMPTIONS = ["byte ranges of the files of a package are disjoint"]


def designs(g):
    yield "MC_Stream", "MC_Stream_thorough.cfg" if g.thorough else "MC_Stream.cfg", {"workers": 4}


def cases(g):
    from vlib import radsdrv
    rng = g.rng
    for s in g.scenarios("MC_Stream", "MC_Stream_gen.cfg", simulate=g.pick(500, 5000), depth=100)[:g.pick(350, 5000)]:
        k = rng.choice([1, 1, 3, 100])
        ents, pos = [], 0
        for i, r in enumerate(s["ranges"]):
            text = (f"{i}" + "abcdefghijklmnopqrstuvwxyz" * 60)[:r["size"] * k]
            ents.append({"file": f"files/f{i}.txt", "package": 1, "toks": [], "raw": text, "gap": (r["off"] - pos) * k})
            pos = r["off"] + r["size"]
        if not ents:
            continue
        order = list(range(len(ents)))
        rng.shuffle(order)
        p = {"name": "proj", "version": "0.0.0.9", "entries": ents, "order": order, "tail": (s["total"] - pos) * k}
        ops = []
        if s["cut"] < s["total"]:
            ops.append({"api": "extract", "cut": [1, s["cut"] * k, rng.choice(["error", "eof"])]})
        ops.append({"api": rng.choice(["extract", "download", "paths"])})
        yield {"world": {"projects": [p]}, "blocks": [b * k for b in s["blocks"]] or [5], "ops": ops, "present": []}
    for _ in range(g.pick(350, 4000)):
        p = radsdrv.gen_project(rng, version=rng.choice(["0.0.0.1", "0.0.1.250"]))
        n = len(p["entries"])
        present = [[i, rng.choice(["right", "other", "empty"])] for i in range(n) if rng.random() < .25]
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            o = {"api": rng.choice(["extract", "extract", "paths", "download"])}
            if o["api"] == "paths":
                o["paths"] = rng.sample(range(n), rng.randint(0, n))
            r = rng.random()
            if r < .3:
                o["cut"] = [rng.randint(1, 3), rng.choice([0, 1, rng.randint(0, 200), rng.randint(0, 1200)]), rng.choice(["error", "eof"])]
            elif r < .4:
                o["fault"] = [rng.randint(1, 3), rng.choice(["refuse", 404, 503])]
            elif r < .5:
                o["rm"] = rng.randrange(n)
            ops.append(o)
        ops.append({"api": "extract"})
        yield {"world": {"projects": [p]}, "blocks": rng.choice([[1], [7], [100], [1000000], [3, 1, 50], [64, 64, 1]]) if rng.random() < .7 else [rng.randint(1, 90) for _ in range(6)],
               "ops": ops, "present": present}


def nontrivial(case, trace):
    return any(len(e["want"]) >= 2 for e in trace["ev"])


def run(case, env):
    import os
    from vlib import guard
    from vlib.radsdrv import RadsWorld
    w = RadsWorld(case["world"], env)
    w.cdn.blocks = case["blocks"]
    p = case["world"]["projects"][0]
    base = f"projects/{p['name']}/releases/{p['version']}"
    paths = [f"{base}/{e['file']}" for e in p["entries"]]
    files = {}
    from cdtb.rads import BinPackageFile  # noqa: only to fail early if it does not exist
    man = w.cdn.files[f"{w.url}{base}/packages/files/packagemanifest"].decode().splitlines()[1:]
    for line in man:
        path, pk, off, size, _ = line[1:].split(",")
        path = path[:-len(".compressed")] if path.endswith(".compressed") else path
        files[path] = {"pkg": pk, "off": int(off), "size": int(size)}

    def scan():
        ret, ident, odd = {}, {}, []
        with guard.disabled():
            for dirpath, _, names in os.walk(w.root):
                for n in names:
                    fp = os.path.join(dirpath, n)
                    rel = os.path.relpath(fp, w.root)
                    with open(fp, "rb") as f:
                        data = f.read()
                    if rel in files:
                        ret[rel] = "right" if data == w.plain[rel] else "wrong"
                        st = os.stat(fp)
                        ident[rel] = (data, st.st_ino, st.st_mtime_ns)
                    elif n not in ("packagemanifest", "releasemanifest"):
                        odd.append(rel)
        return ret, ident, odd
    with guard.disabled():
        for i, how in case["present"]:
            fp = os.path.join(w.root, paths[i])
            os.makedirs(os.path.dirname(fp), exist_ok=True)
            with open(fp, "wb") as f:
                f.write({"right": w.plain[paths[i]], "other": b"something else", "empty": b""}[how])
    ev = []
    with w.cdn:
        for o in case["ops"]:
            if "rm" in o:
                with guard.disabled():
                    fp = os.path.join(w.root, paths[o["rm"]])
                    if os.path.exists(fp):
                        os.remove(fp)
            avail = {}
            w.cdn.hook = None
            for kind in ("cut", "fault"):
                if kind in o:
                    pk = f"BIN_0x{o[kind][0]:08x}"
                    u = f"{w.url}{base}/packages/files/{pk}"
                    if u not in w.package_data:
                        continue
                    if kind == "cut":
                        n, how = min(o["cut"][1], len(w.package_data[u])), o["cut"][2]
                        avail[pk] = n
                        fault = ("cut", n, how)
                    else:
                        avail[pk] = -1
                        fault = "refuse" if o["fault"][1] == "refuse" else ("status", o["fault"][1])
                    w.cdn.hook = lambda url, method, k, u=u, fault=fault: fault if url == u else None
            before, ident, _ = scan()
            pv = w.project_version(p)
            mark = len(w.cdn.log)
            if o["api"] == "extract":
                want = paths
                st, _ = env.call(pv.extract)
            elif o["api"] == "download":
                want = paths
                st, _ = env.call(pv.download)
            else:
                want = [paths[i] for i in o.get("paths", range(len(paths)))]
                st, _ = env.call(pv.extract, list(want))
            after, ident2, odd = scan()
            ev.append({"op": "extract", "want": want, "status": st, "before": before, "after": after, "avail": avail,
                       "kept": [q for q in ident if ident2.get(q) == ident[q]],
                       "requested": [u.rsplit("/", 1)[1] for u, *_ in w.cdn.log[mark:] if u in w.package_data], "odd": odd})
    return {"files": files, "ev": ev}
