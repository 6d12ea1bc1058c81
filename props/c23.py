"""C23: hash guessing only adds true matches and loses nothing"""
import os
import random
import re

from vlib import guessdrv as D

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): known and unknown hashes as a state machine, model checked; generated histories replayed on real guessers, states validated after each operation"
NOTE = ("TLC checks the invariants of guessers over all small lists and histories. Histories it generates are replayed on LcuHashGuesser and GameHashGuesser over "
        "generated archives and lists, through each way to try paths, whole methods and the hashes-guess command; known and unknown hashes are compared by TLC "
        "with what has been tried.")
RULE = ("histories from TLC; lists with wrong entries, archives of all versions and both kinds; candidates repeated, known, unwanted or unusual; "
        "non-trivial: a path is found")
ASSUMPTIONS = ["a list is used by one guesser at a time", "paths contain no line break"]
TRACE = "Trace_C23"
LCU = ["plugins/rcp-fe-lol-x/global/default/a1.png", "plugins/rcp-fe-lol-x/global/default/a2.png", "plugins/rcp-be-y/global/default/trans.json", "plugins/rcp-be-y/global/fr_fr/trans.json",
       "plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/chest_1.png", "plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/chest_1_splash.png",
       "plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/chest_2.png", "plugins/x/100%_a_1.js", "plugins/x/{}/a_1.js", "plugins/rcp-be-lol-game-data/global/default/assets/characters/annie/hud/a.png",
       "plugins/rcp-fe-lol-x/description.json", "plugins/a b/c d.txt", "plugins/rcp-fe-lol-perks/global/default/images/construct/8000/environment.jpg", "a", "", "/", "plugins/é/日本.png"]
GAME = ["assets/characters/annie/skins/base/annie.dds", "assets/characters/annie/skins/skin01/annie.dds", "assets/characters/annie/skins/skin02/annie.dds", "data/characters/annie/annie.bin",
        "data/characters/olaf/olaf.bin", "data/characters/annie/skins/skin0.bin", "assets/a/x.y.dds", "assets/a/x.dds", "assets/a/2x_x.dds", "assets/a/100%_1.dds", "assets/a/100%_2.dds",
        "assets/sounds/en_us/a.bnk", "assets/sounds/fr_fr/a.bnk", "assets/{}/b.tex", "shaders/a.ps_2_0", "a.dds", "b", "", "assets/characters/annie/hud/a.dds", "data/a.vs-dx11", "é/x.bin"]
METHODS = {"lcu": ["substitute_numbers", "substitute_basenames", "substitute_basename_words", "substitute_extensions", "substitute_region_lang", "substitute_plugin",
                   "guess_from_game_hashes", "guess_patterns", "add_basename_word", "grep"],
           "game": ["substitute_numbers", "substitute_basenames", "substitute_basename_words", "substitute_extensions", "substitute_skin_numbers", "substitute_character",
                    "check_basename_prefixes", "substitute_suffixes", "substitute_lang", "guess_skin_groups_bin", "guess_from_lcu_hashes", "guess_characters_files",
                    "guess_shader_variants", "add_basename_word", "grep"]}
CLI = ["grep", "numbers", "basenames", "words", "ext", "regionlang", "plugin", "skin-num", "character", "prefixes"]


def designs(g):
    yield "MC_Guess", "MC_Guess_thorough.cfg" if g.thorough else "MC_Guess.cfg", {"workers": 4, "timeout": 600}


TEXTS = [b'{"a": "fe/lol-x/a1.png", "b": "/fe/lol-x/a2.png"}', b"plain \xff\xfe binary", b'"a1.png" \'a2.png\' require("./a_1.js")', b"[1, 2]", b"5", b"null", b'"x"', b"PROP\x00\x00\x11\x00ASSETS/A/x.y.dds\x00",
         b'Name="\xe9.lua"', b'<template id="lol-template-x"', b"//# sourceMappingURL=b.js.map", b"\x0f\x00assets/a/x.dds", b"", b"x", b"assets/a/100%_1.dds"]


def cases(g):
    rng = g.rng
    scen = g.scenarios("MC_Guess", "MC_Guess_gen.cfg", simulate=g.pick(60, 600), depth=12)
    rng.shuffle(scen)
    for s in scen[:g.pick(420, 5000)]:
        kind = rng.choice(["lcu", "game"])
        pool = LCU if kind == "lcu" else GAME
        other = GAME if kind == "lcu" else LCU
        paths = rng.sample(pool, 8)
        archives = []
        for k in range(rng.randrange(1, 4)):
            kk = kind if k == 0 or rng.random() < .6 else ("game" if kind == "lcu" else "lcu")
            name = rng.choice(["", "d/", "x.wad.client/", "y.wad/"]) + f"a{k}" + rng.choice(["", ".en_US"]) + D.KIND_EXT[kk]
            archives.append({"name": name, "version": rng.choice([[1, 0], [2, 0], [3, 0], [3, 1]]), "hs": k, "kind": kk,
                             "kinds": [rng.choice(["raw", "gz", "zstd", "redir"]) for _ in range(12)], "texts": [rng.choice(TEXTS) for _ in range(12)],
                             "more": rng.sample(other if kk != kind else pool, rng.randrange(3)), "junk": rng.randrange(3)})
        lists = {kind: [], "game" if kind == "lcu" else "lcu": [[D.ph(p), p] for p in rng.sample(other, rng.randrange(5))]}
        for p in rng.sample(paths, rng.randrange(5)):
            lists[kind].append([D.ph(p), p if rng.random() < .8 else rng.choice(["wrong/path.png", rng.choice(pool)])])
        for p in rng.sample(pool, rng.randrange(4)):
            if D.ph(p) not in [h for h, _ in lists[kind]]:
                lists[kind].append([D.ph(p), p])
        ops = []
        for o in s["ops"]:
            if o["o"] == "start":
                ops.append({"o": "start", "hs": o["hs"], "how": rng.choice(["wads", "wads", "set", "list"])})
            elif o["o"] == "try":
                ops.append({"o": "try", "ps": [p - 1 for p in o["ps"]], "how": rng.choice(["check", "iter", "iter", "is_known", "text", "xdbg", "fail", "str"])})
                if rng.random() < .25:
                    ops.append({"o": "method", "m": rng.choice(METHODS[kind])})
            else:
                ops.append({"o": o["o"]})
        if rng.random() < .3:
            ops.append({"o": "command", "methods": rng.choice([None, rng.sample(CLI, rng.randrange(1, 5))]), "dry": rng.random() < .3})
        yield {"kind": kind, "paths": paths, "archives": archives, "lists": lists, "ops": ops}


def nontrivial(case, trace):
    return any(e.get("printed") for e in trace["ev"])


def run(case, env):
    from vlib import guard
    from contextlib import redirect_stdout
    kind, paths = case["kind"], case["paths"]
    rng = random.Random(str(case["paths"]))
    # hashes of the first six paths are those of the archives; all of them in the first archive
    archives = []
    starts = [o["hs"] for o in case["ops"] if o["o"] == "start"]
    wanted = sorted({h - 1 for hs in starts for h in hs})
    for k, a in enumerate(case["archives"]):
        hs = [D.ph(paths[i]) for i in wanted if a["kind"] == kind and (k == 0 or (i + k) % 2)] + [D.ph(p) for p in a["more"]] + [0xABC0 + j for j in range(a["junk"])]
        hs = list(dict.fromkeys(hs))
        entries = []
        for i, h in enumerate(hs):
            kd = a["kinds"][i % 12]
            if kd == "zstd" and a["version"][0] < 3:
                kd = "gz"
            e = {"h": h, "kind": kd, "data": a["texts"][i % 12]}
            if kd == "redir":
                e["target"] = "x/y"
            entries.append(e)
        archives.append({"name": a["name"], "version": a["version"], "entries": entries})
    with guard.disabled():
        d = D.Guessing(env, case["lists"], archives)
    ev, g = [], None

    def state(status, printed, **kw):
        known = list(g.known.items())
        e = {"status": status, "known": d.pairs(known), "unknown": sorted(D.hx(h) for h in g.unknown), "printed": printed}
        e["wrong"] = [D.hx(h) for h, p in known if h not in before and D.ph(p) != h]
        e.update(kw)
        return e
    for o in case["ops"]:
        if o["o"] == "start":
            lst = d.memory_pairs(kind)
            if o["how"] == "wads":
                arch = d.archive_hashes()
                st, g = env.call(lambda: d.cls(kind).from_wads(d.wads()))
            else:
                hs = [D.ph(paths[h - 1]) for h in o["hs"]]
                arch = [{"kind": kind, "hashes": [D.hx(h) for h in hs]}]
                st, g = env.call(d.cls(kind), set(hs) if o["how"] == "set" else hs + hs[:1])
            if st != "ok":
                g = None
                ev.append({"op": "start", "status": "raised", "kind": kind, "archives": arch, "list": d.pairs(lst), "known": [], "unknown": []})
                continue
            before = {}
            ev.append(dict(state("ok", []), op="start", kind=kind, archives=arch, list=d.pairs(lst)))
        elif o["o"] == "restart":
            d.reload()
            g = None
        elif g is None and o["o"] != "command":
            continue
        elif o["o"] == "save":
            st, v = env.call(g.save)
            ev.append({"op": "save", "status": "ok" if st == "ok" else "raised", "file": d.pairs(d.file_pairs(kind))})
        elif o["o"] == "try":
            before = dict(g.known)
            ps, how = [paths[i] for i in o["ps"]], o["how"]
            if how in ("text", "xdbg") and any(re.search(r'[\s"]', p) or not p for p in ps):
                how = "iter"
            ret, cands, expect = [], ps, "ok"
            if how == "check":
                def fn():
                    for p in ps:
                        g.check(p)
            elif how == "iter":
                def fn():
                    g.check_iter(rng.choice([list, iter, tuple])(ps))
            elif how == "is_known":
                ps = cands = ps[:1]

                def fn():
                    ret.append(bool(g.is_known(ps[0])))
            elif how == "text":
                def fn():
                    g.check_text_list("\n ".join(ps) + rng.choice(["", "\n", " \t"]))
            elif how == "xdbg":
                with guard.disabled():
                    with open(env.path("xdbg.txt"), "w", encoding="utf-8") as f:
                        f.write("noise \"" + paths[0] + "\"\n" + "".join(f'hash: "{p}"\n' for p in ps))

                def fn():
                    g.check_xdbg_hashes(env.path("xdbg.txt"))
            elif how == "fail":
                cands, expect = ps[:1], "raised"

                def gen():
                    yield ps[0]
                    raise OSError("stop")

                def fn():
                    g.check_iter(gen())
            else:
                cands, expect = [], "raised"

                def fn():
                    g.check_iter(paths[0])
            st, v, out = d.printing(fn)
            ev.append(state("ok" if st == "ok" else "raised", out, op="try", how=how, cands=[{"h": D.hx(D.ph(p)), "p": p} for p in cands], ret=ret, expect=expect))
        elif o["o"] == "method":
            before = dict(g.known)
            if o["m"] == "grep":
                def fn():
                    for w in d.wads():
                        if w.path.endswith(".wad") == (kind == "lcu"):
                            w.guess_extensions()
                            g.grep_wad(w)
            else:
                kw = {"nmax": 12} if o["m"] == "substitute_numbers" else {}
                fn = lambda: getattr(g, o["m"])(**kw)   # noqa
            st, v, out = d.printing(fn)
            ev.append(state("ok" if st == "ok" else "raised", out, op="method", m=o["m"]))
        else:
            g = None
            d.reload()
            with guard.disabled():
                os.makedirs(env.path("st", "channels", "public"))
            old = {k: d.file_pairs(k) for k in D.KIND_EXT}
            args = ["hashes-guess", "-s", env.path("st")] + (["-m", ",".join(o["methods"])] if o["methods"] else []) + (["-n"] if o["dry"] else [])
            env.op_timeout = 60
            st, out, err = env.cli(args + [os.path.join(d.dir, a["name"]) for a in archives])
            for k in D.KIND_EXT:
                new = d.file_pairs(k)
                hashes = {h for a in d.archive_hashes() if a["kind"] == k for h in a["hashes"]}
                other = {h for a in d.archive_hashes() if a["kind"] != k for h in a["hashes"]}
                oldh = {h for h, _ in old[k]}
                # output of both kinds: only those of this one
                pr = out.split("found LCU hashes:")
                if len(pr) == 2:
                    part = pr[0] if k == "lcu" else pr[1]
                else:
                    part = out if (k == "game") == ("found game hashes:" in out) else ""
                ev.append({"op": "command", "kind": k, "status": "ok" if st == "ok" else "raised", "archives": d.archive_hashes(), "dry": o["dry"],
                           "list": d.pairs(old[k]), "file": d.pairs(new), "wrong": [D.hx(h) for h, p in new if h not in oldh and D.ph(p) != h],
                           "printed": D.printed(part)})
            d.reload()
    with guard.disabled():
        d.cleanup()
    return {"ev": ev}
