"""C29: TFT and Arena data are complete, resolved and translated"""
import json
import os
from types import SimpleNamespace

from vlib import tftcases, tftdrv

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): specification of the data for any game data, and of translations, model checked; files generated by the real code from random game data compared by TLC"
NOTE = ("The specification computes from game data (entries of BIN files) what each file must hold, with its texts to translate. TLC checks a model of translations of shared data, generates game data, "
        "and compares the files generated by the real code for BIN files and string tables written by the harness.")
RULE = ("random game data with missing fields, former names of fields, missing references, templates; all versions with distinct formats of BIN files and string tables; translations which are names of other texts; "
        "non-trivial: two languages and a set with a champion or a trait, or two augments")
ASSUMPTIONS = ["hashes of names are those of the xxhash package", "icons of objects without any are not specified", "data with references to missing items, traits or roles where no value can stand for them may be refused",
               "a champion listed twice by a set may be written twice", "a value of an augment is all its values or the first one"]
TRACE = "Trace_C29"


def designs(g):
    yield "MC_Tft", "MC_Tft_thorough.cfg" if g.thorough else "MC_Tft.cfg", {"workers": 8, "timeout": 1500}


def small(s, gv):
    """Game data from a behaviour of MC_Tft"""
    from vlib.tftdrv import F, entry, lst, mp, num, ref, struct_, text
    es = []
    for i, x in enumerate(s["traits"]):
        es.append(entry("T/%d" % i, "TftTraitData", F(mName=text(("Template%d" if x["template"] else "Trait%d") % i), mDisplayNameTra=text(x["name"]), mDescriptionNameTra=text(x["name"]))))
    files = []
    for i, x in enumerate(s["champs"]):
        es.append(entry("C/%d" % i, "Character", F(name=text("Champ%d" % i))))
        es.append(entry("S/%d" % i, "TftShopData", F(mName=text("champ%d" % i), mDisplayNameTra=text(x["name"]))))
        files.append({"name": "champ%d" % i, "where": "data", "entries": [entry("R", "TFTCharacterRecord", F(spells=lst("LINK", []), mLinkedTraits=lst("LINK", [ref("T/%d" % (t - 1)) for t in x["traits"]])))]})
    for i, x in enumerate(s["sets"]):
        es.append(entry("CL/%d" % i, "MapCharacterList", F(Characters=lst("LINK", [ref("C/%d" % (c - 1)) for c in x["champs"]]))))
        es.append(entry("TL/%d" % i, "TftTraitList", F(mTraits=lst("LINK", [ref("T/%d" % (c - 1)) for c in x["traits"]]))))
        es.append(entry("X/%d" % i, "TFTSetData", F(number=num(x["number"], "U32"), characterLists=lst("LINK", [ref("CL/%d" % i)]), TraitLists=lst("LINK", [ref("TL/%d" % i)]),
                        ScriptData=mp("STRING", "STRUCT", [("SetName", struct_("S", F(mValue=text("Set")), "STRUCT"))]))))
    fmt = "font" if s["format"] == "font" else "tft"
    return {"tft": es, "files": files, "arena": [], "tables": [[fmt, lang, [[k, v] for k, v in t.items() if v]] for lang, t in s["tables"].items()]}


def cases(g):
    rng = g.rng
    scen = g.scenarios("MC_Tft", "MC_Tft_gen.cfg", simulate=g.pick(60, 1000), depth=14)
    rng.shuffle(scen)
    for s in scen[:g.pick(60, 1500)]:
        gv = rng.choice(tftcases.GV)
        yield conf(rng, gv, small(s, gv))
    for _ in range(g.pick(450, 8000)):
        gv = rng.choice(tftcases.GV)
        x = tftcases.Gen(rng, gv)
        es, files = x.tft()
        yield conf(rng, gv, {"tft": es, "files": files, "arena": x.arena(), "tables": x.tables()})


def conf(rng, gv, world):
    have = sorted({t[1] for t in world["tables"]}) or ["en_us"]
    exported = rng.random() < .6
    if exported and rng.random() < .1 and (gv < 923 or gv > 1007):
        gv = 913 if gv < 923 else 1313    # not supported
    return {"gv": gv, "version": gv if exported else 0, "world": world,
            "langs": None if rng.random() < .5 else rng.sample(have, rng.randrange(1, len(have) + 1)) + (["zz_zz"] if rng.random() < .1 else []), "n": rng.randrange(1 << 30)}


def nontrivial(case, trace):
    return any(e["op"] == "generate" and len(e["files"]) > 1 and any(p["s"] in ("setData", "augments") and any(len(q["kids"][0]["kids"]) > 1 for x in p["kids"][0]["kids"] for q in x["kids"] if q["s"] in ("traits", "champions", "name"))
               or p["s"] == "augments" and len(p["kids"][0]["kids"]) > 1 for p in e["files"][0][1]["kids"]) for e in trace["ev"])


def run(case, env):
    import random

    import xxhash

    import cdtb.binfile as B
    from cdtb.arenadata import ArenaTransformer
    from cdtb.export import CdragonRawPatchExporter
    from cdtb.storage import PatchVersion
    from cdtb.tftdata import TftTransformer
    from vlib import guard
    rng = random.Random(case["n"])
    w, gv = case["world"], case["gv"]
    # versions below the supported ones only make sense for exports
    ver = case["version"]
    out = env.path("out")
    game = os.path.join(out, "game")
    tables = []
    with guard.disabled():
        os.makedirs(game)
        wr = tftdrv.Writer(gv)
        tftdrv.write(os.path.join(game, "data/maps/shipping/map22/map22.bin"), wr.file(w["tft"], rng.choice([1, 2, 3])))
        tftdrv.write(os.path.join(game, "data/maps/shipping/map30/map30.bin"), wr.file(w["arena"], rng.choice([1, 2, 3])))
        for f in w["files"]:
            p = f"characters/{f['name']}.cdtb.bin" if f["where"] == "characters" else f"data/characters/{f['name']}/{f['name']}.bin"
            tftdrv.write(os.path.join(game, p), wr.file(f["entries"], rng.choice([2, 3])))
        for fmt, lang, pairs in w["tables"]:
            if fmt == "font" or (fmt == "menu" and rng.random() < .3):
                kind = "font"
                plain = rng.random() < .6
                data = tftdrv.fontconfig(pairs, "\n" if plain or rng.random() < .5 else "\r\n", plain or rng.random() < .5, rng.random() < .2, rng.choice(["", "", "fontlib \"x\"\n", "\n"]))
                pairs = [p for p in pairs if "\"" not in p[0] + p[1] and "=" not in p[0] and "\n" not in p[1]]
                if fmt != "font":
                    data = tftdrv.fontconfig(pairs)
                if rng.random() < .1:
                    data = b"# \xff\x92\n" + data + b"\ntr \"bad\" = \"\xff\"\n"
            else:
                kind = "rst"
                rng.shuffle(pairs)
                data = tftdrv.rst(pairs, rng.choice([2, 3] if gv < 1200 else [4, 5]), gv)
            tables.append({"format": fmt, "kind": kind, "lang": lang, "pairs": [[tftdrv.esc(k), tftdrv.esc(v)] for k, v in pairs]})
            tftdrv.write(os.path.join(game, tftdrv.table_path(fmt, lang)), data)
    pick = lambda xs: [x for x in xs if rng.random() < .6]   # noqa
    types = {"TftTraitData", "TftItemData", "TFTSetData", "Character", "TftShopData", "AugmentData", "SpellObject", "TFTCharacterRecord", "GameCalculation", "Part", "C", "S"}
    fields = {"mName", "mDisplayNameTra", "TraitData", "BaseValue", "value", "name", "mFormulaParts", "mStat", "mDataValue", "mPercent", "mNumber", "mText"}
    shown = {"GameCalculation", "Part", "mFormulaParts", "mStat", "mDataValue", "mPercent", "mNumber", "mText"}
    B.hashfile_bintypes.hashes = {tftdrv.fnv(x): x for x in types if x in shown or rng.random() < .6}
    B.hashfile_binfields.hashes = {tftdrv.fnv(x): x for x in fields if x in shown or rng.random() < .6}
    B.hashfile_binentries.hashes = {tftdrv.fnv(e["path"]): e["path"] for e in pick(w["tft"] + w["arena"])}
    B.hashfile_binhashes.hashes = {tftdrv.fnv(x): x for x in tftcases.HASHES + ["eff1", "eff2"] if not x.startswith("{")}
    B.hashfile_binpaths.hashes = {xxhash.xxh64_intdigest(x.lower()): x for x in tftcases.PATHS if not x.startswith("{")}
    ev = [{"op": "data", "gv": gv, "tft": tftdrv.for_tlc(w["tft"]), "chars": tftdrv.for_tlc(w["files"]), "arena": tftdrv.for_tlc(w["arena"]), "tables": tables}]
    for what, cls, sub in (("tft", TftTransformer, "cdragon/tft"), ("arena", ArenaTransformer, "cdragon/arena")):
        dst = os.path.join(out, sub)
        if ver:
            v = PatchVersion("main" if ver == 9999 else f"{ver // 100}.{ver % 100}")
            x = CdragonRawPatchExporter(out, SimpleNamespace(version=v, latest=None), None)
            st, r = env.call(x.export_tft_data if what == "tft" else x.export_arena_data)
            langs = None
        elif case["n"] % 4 == 0:
            # program of the module
            import sys
            langs = None
            argv, mod = sys.argv, sys.modules[cls.__module__]
            given = gv < 1502 or rng.random() < .5
            with guard.disabled():
                os.makedirs(env.path("w"), exist_ok=True)
            sys.argv = [what, game] + ([rng.choice(["-V", "--patch-version"]), f"{gv // 100}.{gv % 100}" if rng.random() < .5 else f"{gv // 100}.{gv % 100:02}"] if given and gv < 9999 else [])
            if rng.random() < .6:
                sys.argv += [rng.choice(["-o", "--output"]), dst]
            else:
                dst = env.path("w", what)
            cwd = os.getcwd()
            try:
                os.chdir(env.path("w"))
                st, r = env.call(mod.main)
            finally:
                os.chdir(cwd)
                sys.argv = argv
        else:
            langs = case["langs"]
            kw = {} if gv >= 1502 and rng.random() < .3 else {"game_version": gv}
            st, r = env.call(lambda: cls(game, **kw).export(dst, langs) if langs is not None or rng.random() < .5 else cls(game, **kw).export(dst))
        files, bad = [], []
        with guard.disabled():
            for n in sorted(os.listdir(dst)) if os.path.isdir(dst) else []:
                try:
                    with open(os.path.join(dst, n), encoding="utf-8") as f:
                        files.append([n, tftdrv.node(json.load(f))])
                except ValueError:
                    bad.append(n)
        ev.append({"op": "generate", "what": what, "version": ver or gv, "exported": bool(ver), "status": st, "langs": ["*"] if langs is None else langs, "files": files, "bad": bad})
    return {"ev": ev}
