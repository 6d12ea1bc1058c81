"""Cases and runs shared by C02 and C03"""
import os
import re

from . import guard
from .histdrv import PatcherHistory, RadsHistory, answer, patch_rec, vtext, vnums, STORE


def bump(rng, v):
    """A later version, around digit-count boundaries"""
    a, b = v
    r = rng.random()
    if r < .35:
        return [a, b + 1]
    if r < .7:
        return [a, b + rng.randint(1, 12)]
    return [a + 1, rng.choice([1, 1, 2, 10])]


def from_scenario(rng, s, versions=None):
    """History of MC_History (releases with version numbers 1..M) to a patcher case"""
    if versions is None:
        versions = [rng.choice([[8, 9], [9, 9], [9, 24], [13, 9]])]
        while len(versions) < 6:
            versions.append(bump(rng, versions[-1]))
    mans, rels, cur = {}, [], {}
    for r in s["h"]:
        rel = {}
        for n, v in r.items() if isinstance(r, dict) else ():
            v = versions[v[1] - 1]
            prev = cur.get(n)
            # same version: same manifest (only the other element changed) or a new subpatch
            if prev and mans[prev] == v and rng.random() < .5:
                rel[n] = prev
            else:
                m = f"{n[0]}{len(mans)}"
                mans[m] = v
                rel[n] = cur[n] = m
        rels.append(rel)
    return {"manifests": mans, "initial": rels, "versions": versions}


def patcher_case(rng, s, lookups):
    c = from_scenario(rng, s)
    versions = c["versions"]
    line = rng.choice(["live", "live", "live", "pbe"])
    mans = c["manifests"]
    last = {}
    for n in ("client", "game"):
        ms = [r[n] for r in c["initial"] if n in r]
        if ms:
            last[n] = ms[-1]
    case = {"kind": "patcher", "line": line, "manifests": mans, "now": 1700000000, "salt": rng.randrange(1000),
            "initial": {line: c["initial"]}, "cached": rng.choice([True, "some", False]), "versions": versions}
    other = "pbe" if line == "live" else "live"
    if rng.random() < .4:
        mans.update({"c90": [7, 7], "g90": [7, 8]})
        case["initial"][other] = [{"client": "c90", "game": "g90"}]
    ops = []
    n = rng.choice([1, 2, 3])
    for _ in range(n):
        if rng.random() < .5:
            # advertised pair: the last one, a new client/game/both
            adv = {}
            top = max([mans[m] for m in last.values()] or [versions[0]])
            for e in ("client", "game"):
                if e in last and rng.random() < .5:
                    adv[e] = last[e]
                else:
                    m = f"{e[0]}{len(mans)}"
                    mans[m] = rng.choice([v for v in versions if v >= (mans[last[e]] if e in last else versions[0])])
                    adv[e] = m
            last = dict(adv)
            ops.append({"o": "advertise", "client": adv["client"], "game": adv["game"]})
        for _ in range(rng.choice([1, 2])):
            ops.append(lookup_op(rng, versions) if lookups else
                       {"o": rng.choice(["elements", "patches", "patches", "take"]), "stored": rng.random() < .6, "take": rng.randint(1, 3)})
        if rng.random() < .2:
            ops.append({"o": "fresh"})
        if rng.random() < .2:
            ops.append({"o": "stray"})
    case["ops"] = ops
    flags = ["en_US", "ko_KR", "windows"]
    case["files"] = {m: [{"path": rng.choice(["", "DATA/", "Plugins/A/"]) + f"F{m}x{i}.Wad", "flags": rng.sample(flags, rng.choice([0, 0, 1, 2]))} for i in range(rng.randint(0, 3))] for m in mans}
    return case


BAD = ["", "patch", "game", "solution=8.1", "patch=x", "patch=8.a", "patch=-1", "GAME=8.1", "patch =8.1", "patch= 8.1", " patch=8.1", "client=latest", "game=mainx", "patchx=8.1", "patch=.8",
       "path/to/file.wad", "patch=8.1 ", "game=Main", "=8.1", "lcu=8.1"]


def version_text(rng, versions):
    v = rng.choice(versions)
    r = rng.random()
    if r < .5:
        return vtext(v)
    if r < .6:
        return vtext(v) + "."
    if r < .7:
        return ""
    if r < .76:
        return "main"
    if r < .82:
        return f"{v[0]}"
    if r < .88:
        return f"{vtext(v)}.{rng.randint(0, 9)}"
    if r < .94:
        return f"{vtext(v)}{rng.randint(0, 9)}"      # longer number
    return f"{v[0]}.{str(v[1])[:1]}"                 # shorter number


def lookup_op(rng, versions):
    r = rng.random()
    what = rng.choice(["patch", "client", "game"])
    if r < .4:
        form = rng.choice(["latest", "version", "version", "version"])
        v = rng.choice(versions) if form == "version" else []
        if form == "version" and rng.random() < .25:
            v = rng.choice([[v[0], v[1] * 10], [v[0], v[1] + 1], [v[0] + 1, v[1]], []])
        return {"o": "find", "what": what, "form": form, "v": v, "stored": rng.random() < .6, "as": rng.choice(["text", "object"])}
    if r < .75:
        return {"o": "component", "text": rng.choice(BAD) if rng.random() < .15 else f"{what}={version_text(rng, versions)}"}
    if r < .88:
        return {"o": "files", "text": rng.choice(BAD[1:]) if rng.random() < .05 else f"{what}={version_text(rng, versions)}", "relative": rng.random() < .5, "langs": rng.random() < .6}
    return {"o": "versions", "what": what, "all": rng.random() < .3}


def rads_case(rng, lookups):
    base = [rng.choice([3, 4, 7]), rng.choice([1, 8, 9])]
    versions = [base]
    while len(versions) < 5:
        versions.append(bump(rng, versions[-1]))
    sols = {}
    pbe = rng.random() < .15
    for e in ("client", "game"):
        if rng.random() < .12:
            sols[e] = []
            continue
        vi, svs = rng.randrange(2), []
        n = rng.choice([40, 200, 250, 511])
        for k in range(rng.randint(0, 6)):
            n += rng.choice([1, 1, 3, 9, 60])
            vi = min(len(versions) - 1, vi + rng.choice([0, 0, 1, 1, 2]))
            sv = {"v": f"0.0.{n // 256}.{n % 256}", "patch": versions[vi]}
            if e == "client":
                r = rng.random()
                sv["cached"] = rng.random() < .5
                if r < .15 and not pbe:
                    sv["patch"] = None
                elif r < .4:
                    sv["stored"] = False
            svs.append(sv)
        sols[e] = svs
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        if lookups:
            o = lookup_op(rng, versions)
            if o["o"] == "files":
                o = {"o": "versions", "what": "game", "all": False}
            if o["o"] == "component":
                o["own"] = rng.random() < .6
                if o["own"]:
                    o["text"] = rng.choice([o["text"], "patch=", "patch=", "patch=%d.%d" % tuple(rng.choice(versions))])
            ops.append(o)
        else:
            ops.append({"o": rng.choice(["elements", "patches", "patches", "take"]), "stored": rng.random() < .6, "take": rng.randint(1, 3)})
    return {"kind": "rads", "line": "live", "solutions": sols, "pbe": pbe, "ops": ops, "salt": rng.randrange(1000), "versions": versions}


def run(case, env):
    from cdtb.storage import parse_storage_component, PatchVersion
    rads = case["kind"] == "rads"
    h = (RadsHistory if rads else PatcherHistory)(case, env)
    line = case["line"]
    ev = []
    last = {}
    if not rads:
        # by default, the servers advertise the last release
        rels = [r for r in h.releases(line)[0]]
        if rels and "-" not in rels[-1][1:]:
            last = {"client": rels[-1][1], "game": rels[-1][2]}
            h.advertise(line, last["client"], last["game"])
    storage = h.storage(line)

    def event(o, fn, mode, **kw):
        nonlocal storage
        mark = len(h.cdn.log)
        adv = []
        if not rads:
            rels = h.releases(line)[0]
            before = h.release_files(line, [r[0] for r in rels])
            hist = h.abstract_history(line)
            if mode != "stored":
                adv = [last["client"], last["game"]] if last else []
        else:
            hist = h.abstract_history(mode != "update")
            full = h.abstract_history(mode == "stored")
        st, res = fn()
        e = {"op": o, "mode": mode, "status": st, "h": hist, "adv": adv, "changed": False, "rels": [], "rels2": [], "requests": 0, **kw}
        if not rads:
            rels2 = h.releases(line)[0]
            e["rels"], e["rels2"] = [r[1:] for r in rels], [r[1:] for r in rels2]
            e["changed"] = before != h.release_files(line, [r[0] for r in rels]) or [r[0] for r in rels2][:len(rels)] != [r[0] for r in rels]
            e["after"] = h.abstract_history(line)
            e["requests"] = h.update_requests(mark)
        else:
            e["after"] = full
            e["requests"] = sum("releaselisting" in u for u, *_ in h.cdn.log[mark:])
        e.update(res)
        ev.append(e)

    def listing(o):
        def fn():
            if o["o"] == "elements":
                st, r = env.call(lambda: list(storage.patch_elements(stored=o["stored"])))
                return st, {"out": [h.elem_rec(line, x) for x in r] if st == "ok" else []}
            def get():
                it = storage.patches(stored=o["stored"])
                if o["o"] == "patches":
                    return list(it)
                import itertools
                return list(itertools.islice(it, o["take"]))
            st, r = env.call(get)
            return st, {"out": [patch_rec(h, line, x) for x in r] if st == "ok" else []}
        return fn

    def find(o):
        v = None if o["form"] == "latest" else vtext(o["v"]) if o["as"] == "text" else PatchVersion(vtext(o["v"]))

        def fn():
            if o["what"] == "patch":
                st, r = env.call(storage.patch, v, stored=o["stored"])
            else:
                st, r = env.call(storage.patch_element, o["what"], v, stored=o["stored"])
            return st, {"res": answer(h, line, r) if st == "ok" else {"kind": "none"}}
        return fn

    def component(o):
        def fn():
            if o.get("own") and re.match(r"^patch=([0-9]+[.][0-9]+)?$", o["text"]):
                # components of RADS storages include patches
                from cdtb.rads import parse_rads_component
                st, r = env.call(parse_rads_component, storage, o["text"])
            else:
                st, r = env.call(parse_storage_component, storage, o["text"])
            if st == "raised" and r == "ValueError":
                st = "invalid"
            return st, {"res": answer(h, line, r) if st == "ok" else {"kind": "none"}}
        return fn

    def loc(relative):
        def f(text):
            if relative:
                return [0, text]
            base = os.path.join(h.root, "cdtb/releases", line) + "/"
            t = os.path.normpath(text)
            if not t.startswith(base):
                return [-1, text]
            rid, sub, name = t[len(base):].split("/", 2)
            return [h.rel_index(line, rid), name if sub == "files" else "?"]
        return f

    def cli_args():
        if rads:
            if case.get("pbe"):
                import json
                with guard.disabled(), open(env.path("conf.json"), "w") as f:
                    json.dump({"type": "rads", "path": STORE, "cdn": "pbe"}, f)
                return ["-s", env.path("conf.json")]
            return ["-s", "rads:" + h.root]
        a = ["-s", h.root]
        return a + ["--patchline", line] if line != "live" or case["salt"] % 2 else a

    def files(o):
        def fn():
            st, out, err = env.cli(["files"] + cli_args() + (["-r"] if o["relative"] else []) + ([] if o["langs"] else ["--no-lang"]) + [o["text"]])
            f = loc(o["relative"])
            return st, {"out": [f(x) for x in out.splitlines()]}
        return fn

    def versions(o):
        def fn():
            st, out, err = env.cli(["versions"] + cli_args() + (["-a"] if o["all"] else []) + [o["what"]])
            return st, {"out": [vnums(x) for x in out.split()]}
        return fn

    from contextlib import nullcontext
    with h.cdn, (nullcontext() if rads else h.clock):
        for o in case["ops"]:
            if not rads:
                h.clock.now += 7
            k = o["o"]
            if k == "advertise":
                last = {"client": o["client"], "game": o["game"]}
                h.advertise(line, o["client"], o["game"])
            elif k == "fresh":
                storage = h.storage(line, fresh=True)
            elif k == "stray":
                with guard.disabled():
                    base = os.path.join(h.root, "cdtb/releases", line)
                    os.makedirs(os.path.join(base, "1600000000"), exist_ok=True)
                    os.makedirs(os.path.join(base, "9999999999"), exist_ok=True)
                    with open(os.path.join(base, "notes.txt"), "w") as f:
                        f.write("x")
            elif k in ("elements", "patches", "take"):
                if not o["stored"] and not rads and not last:
                    continue
                event(k, listing(o), "stored" if o["stored"] else "update", take=o["take"])
            elif k == "find":
                if not o["stored"] and not rads and not last:
                    continue
                event(k, find(o), "stored" if o["stored"] else "update", what=o["what"], form=o["form"], v=o["v"])
            elif k in ("component", "files"):
                if not rads and not last:
                    continue
                latest = o["text"].endswith("=")
                kw = {"text": o["text"]}
                if k == "files":
                    kw.update(relative=o["relative"], langs=o["langs"])
                event(k, {"component": component, "files": files}[k](o), "update" if latest and o["text"].split("=")[0] in ("patch", "game", "client") else "any", **kw)
            elif k == "versions":
                if o["all"] and not rads and not last:
                    continue
                event(k, versions(o), "update" if o["all"] else "stored", what=o["what"])
    fm = {}
    if not rads:
        for m, fs in h.files.items():
            fm[m] = [{"path": f["path"], "lpath": f["path"].lower(), "locale": any(len(x) == 5 and "_" in x for x in f.get("flags", []))} for f in fs]
    return {"files": fm, "ev": ev}
