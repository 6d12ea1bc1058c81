"""Cases of exports of patches (C15 to C19, C21)"""
import os
import random

import xxhash

from . import contents, faults, guard
from .exportdrv import ExportWorld, EXPORTS, vtext

WADS = [[3, 1], [3, 1], [3, 0], [3, 3], [3, 4], [2, 0], [1, 0]]
LCU_ARCHIVES = ["Plugins/rcp-be-lol-game-data/default-assets.wad", "Plugins/rcp-fe-x/assets.wad", "Plugins/rcp-fe-x/assets2.wad", "Plugins/rcp-fe-x/en_US-assets.wad",
                "Plugins/other/assets.wad", "Plugins/rcp-be-y/description.wad", "x-assets.wad", "Plugins/rcp-fe-x/sub/assets12.wad", "Plugins/rcp-/assets.wad"]
GAME_ARCHIVES = ["DATA/FINAL/Champions/Aatrox.wad.client", "DATA/FINAL/Champions/Aatrox.en_US.wad.client", "DATA/FINAL/Global.wad.client", "DATA/FINAL/UI.fr_FR.wad.client",
                 "DATA/FINAL/Maps/Map11.zh_cn.wad.client", "DATA/FINAL/a.b.wad.client", "DATA/FINAL/.wad.client"]
LCU_NAMES = [("data", ".txt"), ("json", ".json"), ("png", ".png"), ("dds", ".dds"), ("tga", ".tga"), ("tex", ".tex"), ("data", ".js"), ("data", ".jpg"), ("data", ".exe"), ("data", ".dll"),
             ("bin", ".bin"), ("skn", ".skn"), ("data", ""), ("json", ""), ("png", ".dds"), ("data", ".d")]
GAME_NAMES = [("dds", ".dds"), ("tex", ".tex"), ("tga", ".tga"), ("png", ".png"), ("bin", ".bin"), ("skn", ".skn"), ("data", ".txt"), ("json", ".json"), ("data", ".ttf"),
              ("data", ".otf"), ("data", ".wpk"), ("data", ".anm"), ("data", ".dll"), ("atlas", ""), ("bin", ""), ("data", ""), ("json", ""), ("data", ".stringtable"), ("dds", ".tga")]
PLAIN_NAMES = [("data", ".yaml"), ("data", ".exe"), ("data", ".dll"), ("png", ".png"), ("dds", ".dds"), ("tga", ".tga"), ("tex", ".tex"), ("skn", ".skn"), ("json", ".json"), ("data", ""), ("data", ".d.exe.txt")]
HEADED = {"png": "png", "dds": "dds", "tex": "tex", "bin": "bin", "skn": "skn", "json": "json"}


class Gen:
    """Files of a world: paths are distinct, and not directories of each other, whatever they are converted to"""

    def __init__(self, rng, versions, opts):
        self.rng, self.versions, self.opts = rng, versions, opts
        self.contents, self.n = {}, 0
        self.hashes = {"game": {}, "lcu": {}}

    def content(self, kind, invalid=None):
        self.n += 1
        self.contents[str(self.n)] = contents.make(self.rng, kind, self.n, invalid)
        return str(self.n)

    def invalid(self, kind):
        if kind in ("data", "json") or self.rng.random() >= self.opts.get("invalid", 0):
            return None
        return self.rng.choice(contents.INVALID)

    def path(self, el, kind, ext):
        """Path of an entry with a known name"""
        rng = self.rng
        self.n += 1
        stem = rng.choice(["n", "m", "z.y", "a b"]) + str(self.n)
        dirs = ["assets/a", "assets/a", "assets/a/b", "assets/b", "data"]
        if el == "client":
            dirs = ["plugins/rcp-be-lol-game-data/global/default/v1", "plugins/rcp-fe-x/global", "plugins/rcp-fe-x/global/sub", "plugins/rcp-fe-x"]
        d = rng.choice(dirs)
        if el == "game" and kind == "bin" and rng.random() < .3:
            stem = rng.choice(["x_skins_", "_skins_", "xskins_", "x_Skins_"]) + stem
        if self.opts.get("long") and rng.random() < self.opts["long"]:
            # a directory whose name is too long for the file system
            d += "/" + "w" * 256
        return f"{d}/{stem}{ext}"

    def entry(self, el):
        """A file of an archive: identity which does not change with its content"""
        rng = self.rng
        kind, ext = rng.choice(GAME_NAMES if el == "game" else LCU_NAMES)
        p = self.path(el, kind, ext)
        if el == "game" and rng.random() < .25:
            self.n += 1
            special = [("rst", f"data/menu/main_{self.n}.stringtable"), ("rst", f"data/menu/en_us/t{self.n}.stringtable"), ("rst", f"x/data/menu/fontconfig_{self.n}.txt"),
                       ("atlas", f"assets/items/icons2d/autoatlas/n{self.n}/atlas_info.bin"), ("rst", f"data/menus/t{self.n}.txt")]
            if not getattr(self, "skins", False):
                special.append(("skins", "global/champions/championskins.info"))
            kind, p = rng.choice(special)
            self.skins = getattr(self, "skins", False) or kind == "skins"
        e = {"h": "%016x" % xxhash.xxh64_intdigest(p), "path": p, "kind": kind, "el": el, "store": rng.choice(["raw", "gz", "zstd"])}
        if rng.random() < self.opts.get("unknown", .25):
            e["path"] = ""
        else:
            self.hashes["game" if el == "game" else "lcu"][e["h"]] = p
        # the guessed extension only depends on the hash
        e["fixed"] = e["path"] == "" or os.path.splitext(p)[1] == ""
        e["ext"] = HEADED.get(kind, "") if e["fixed"] else ""
        e["redir"] = rng.random() < .06
        self.made = getattr(self, "made", []) + [e]
        return e

    def fresh(self, e):
        """A new content for an entry"""
        if "h" in e and not e["fixed"] and self.rng.random() < self.opts.get("unreadable", 0):
            c = self.content("data")
            self.contents[c]["tok"].update(ok=False, none=True)
            return c
        return self.content(e["kind"], None if e.get("fixed") else self.invalid(e["kind"]))

    def archive(self, el):
        rng = self.rng
        return {"el": el, "path": None, "entries": [self.entry(el) for _ in range(rng.choice([1, 2, 3, 5]))]}

    def world(self):
        """Releases as successive changes of a first one"""
        rng, o = self.rng, self.opts
        archives = []
        for el, paths in (("client", LCU_ARCHIVES), ("game", GAME_ARCHIVES)):
            for p in rng.sample(paths, rng.choice([0, 1, 1, 2])):
                archives.append(dict(self.archive(el), path=p, wad=rng.choice(WADS)))
        plains = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            kind, ext = rng.choice(PLAIN_NAMES)
            el = rng.choice(["client", "client", "game"])
            self.n += 1
            base = rng.choice(["A/", "", "Plugins/rcp-fe-x/global/", "DATA/"]) + rng.choice(["P", "q"]) + str(self.n) + ext
            plains.append({"el": el, "path": base, "kind": kind})
        if rng.random() < .3:
            plains.append({"el": "client", "path": "Plugins/rcp-be-lol-game-data/description.json", "kind": "json"})
        if not archives and not plains:
            plains.append({"el": "client", "path": "only.txt", "kind": "data"})
        cur = {}        # (archive, hash) or plain path -> content
        rels = []
        # the same file in two archives
        games = [a for a in archives if a["el"] == "game" and ".wad.client" in a["path"] and "_" not in a["path"]]
        lcus = [a for a in archives if a["el"] == "client"]
        for group in (games, lcus):
            if len(group) == 2 and rng.random() < .6:
                e = rng.choice(group[0]["entries"])
                if e["path"]:
                    group[1]["entries"].append(e)
        for k, v in enumerate(self.versions):
            srcs = []
            p_same, decided = rng.choice([.3, .7, .9]), set()
            for a in archives:
                if k and rng.random() < .1:
                    continue
                if k and rng.random() < .25 and not o.get("samewad"):
                    a["wad"] = rng.choice(WADS)
                entries = []
                for e in a["entries"]:
                    key = e["h"]
                    if rng.random() < .12 and len(a["entries"]) > 1:
                        continue
                    if key not in cur or (key not in decided and rng.random() > p_same):
                        cur[key] = (self.fresh(e), k)
                    decided.add(key)
                    entries.append({"h": e["h"], "path": e["path"], "c": cur[key][0], "kind": e["store"], "redir": e["redir"], "ext": e["ext"]})
                if k and rng.random() < .2:
                    e = self.entry(a["el"])
                    a["entries"].append(e)
                    cur[e["h"]] = (self.fresh(e), k)
                    entries.append({"h": e["h"], "path": e["path"], "c": cur[e["h"]][0], "kind": e["store"], "redir": e["redir"], "ext": e["ext"]})
                if not entries:
                    continue
                srcs.append({"el": a["el"], "path": a["path"], "wad": a["wad"], "entries": entries, "salt": rng.randrange(100)})
            for p in plains:
                if k and rng.random() < .15:
                    continue
                key = p["path"]
                if key not in cur or rng.random() > p_same:
                    cur[key] = (self.fresh(p), k)
                srcs.append({"el": p["el"], "path": p["path"], "c": cur[key][0]})
            if not srcs:
                srcs.append({"el": "client", "path": "only.txt", "c": self.content("data")})
            rels.append({"v": v, "srcs": srcs})
        return rels


def base_case(rng, gen, rels, storage=None):
    return {"storage": storage or rng.choice(["patcher", "patcher", "stub"]), "sym": rng.random() < .7, "contents": gen.contents, "hashes": gen.hashes,
            "releases": rels, "salt": rng.getrandbits(30)}


VERSIONS = [[[9, 1], [9, 2], [9, 3]], [[8, 24], [9, 1], [9, 10]], [[9, 9], [9, 10], [9, 11]], [[7, 5], [8, 1], [9, 13]]]
LATE = [[[14, 3], [14, 4], [14, 5]], [[13, 24], [14, 1], [14, 10]], [[14, 2], [14, 3], [14, 4]], [[14, 9], [15, 1], [15, 2]], [[9, 13], [9, 14], [14, 4]]]


def random_case(rng, opts, late=.25, main=.08):
    vs = rng.choice(LATE if rng.random() < late else VERSIONS)
    n = rng.choice(opts.get("nver", [1, 2, 3]))
    vs = [list(v) for v in vs[len(vs) - n:]]
    if rng.random() < main and n == 1:
        vs = [[]]
    order = list(vs)
    # later contents of the same patches
    extra = opts.get("again", .3)
    hot = []
    while rng.random() < extra and len(hot) < 2:
        hot.append(order[-1])
    gen = Gen(rng, order + hot, opts)
    rels = gen.world()
    case = base_case(rng, gen, rels)
    case["recorded"] = len(order)
    return case, vs, len(order)


RULE_LCU = ["Plugins/rcp-be-lol-game-data/default-assets.wad", "Plugins/rcp-be-lol-game-data/de_DE-assets.wad", "Plugins/rcp-fe-x/assets.wad", "Plugins/rcp-fe-Y/ASSETS.wad",
            "Plugins/rcp-fe-x/assets007.wad", "Plugins/rcp-fe-x/assets1.2.wad", "Plugins/rcp-fe-x/a/b/my-assets9.wad", "Plugins/rcp-fe-x/assets9.wad.d/x.wad", "Plugins/RCP-BE-Z/assets.wad",
            "Plugins/xrcp-be/assets.wad", "a/Plugins/rcp-be-q/assets.wad", "Plugins/rcp-fe-x/asset.wad", "Plugins/rcp-fe-x/assetss.wad", "Plugins/rcp-fe-x/assets.wad.client",
            "assets.wad", "Plugins/rcp-/assets.wad", "Plugins/rcp-x/9assets.wad", "Plugins/rcp-fe-x/en_US.wad.client"]
RULE_GAME = ["DATA/FINAL/Global.wad.client", "DATA/FINAL/Global.en_US.wad.client", "DATA/FINAL/Global.zh_CN.wad.client", "DATA/FINAL/Global.en_USA.wad.client", "DATA/FINAL/Global.en-US.wad.client",
             "DATA/FINAL/Globalen_US.wad.client", "DATA/FINAL/en_US.wad.client", "DATA/FINAL/.en_US.wad.client", "DATA/FINAL/x.fr_FR.y.wad.client", "DATA/FINAL/fr_FR/Map.wad.client", "DATA/FINAL/Map.wad",
             "DATA/FINAL/Champions/A.é_fr.wad.client", "DATA/FINAL/Champions/A.1_23.wad.client", "DATA/FINAL/Champions/A.12_3x.wad.client"]
RULE_VERSIONS = [[14, 4], [14, 3], [14, 5], [14, 10], [14, 1], [13, 24], [15, 1], [], [], [9, 4], [14, 14]]
RULE_EXTS = [".exe", ".dll", ".png", ".dds", ".tga", ".tex", ".skn", ".bin", ".txt", ".stringtable", ".json", ".ttf", ".otf", ".jpg", ".js", ".exe.txt", ".txt.dll", ".wpk", ".ccd", ".skl", ".d",
             "", ".info", ".cdtb", ".troybin", ".lua", ".yaml", ".Exe", ".bin.json", ".png.bin", ".svg", ".webm"]
RULE_DIRS = ["assets", "data/menu", "data/menu/en_us", "x/data/menu", "game", "data", "data/characters/a/skins", "plugins/rcp-fe-x/global", "plugins/rcp-fe-x", "assets/items/icons2d/autoatlas/q", "unknown", "_skins_",
             "global/champions", "plugins/rcp-be-lol-game-data/global/default"]


def rules_case(rng):
    """Many files of all kinds in a patch, exported once or twice"""
    v = list(rng.choice(RULE_VERSIONS))
    gen = Gen(rng, [v], {})
    archives = rng.sample(RULE_LCU, rng.choice([0, 1, 2, 3])) + rng.sample(RULE_GAME, rng.choice([0, 1, 2, 3]))
    srcs, taken = [], set()
    for a in archives or [rng.choice(RULE_GAME)]:
        el = "game" if a in RULE_GAME else "client"
        known = gen.hashes["game" if a.endswith(".wad.client") else "lcu"]
        entries = []
        for k in range(rng.choice([2, 5, 9])):
            gen.n += 1
            ext = rng.choice(RULE_EXTS)
            name = rng.choice(["n", "a b", "z.y", "x_skins_", "_skins_x", "xskins", "description", "n"])
            stem = f"{name}{gen.n}" if name != "description" or rng.random() < .5 else f"d{gen.n}/description"
            p = f"{rng.choice(RULE_DIRS)}/{stem}{ext}"
            if rng.random() < .05:
                p = "global/champions/championskins.info"
            elif rng.random() < .05:
                p = f"assets/items/icons2d/autoatlas/q{gen.n}/atlas_info.bin"
            kind = {".dds": "dds", ".tga": "tga", ".tex": "tex", ".bin": "bin", ".skn": "skn", ".txt": "rst", ".stringtable": "rst", ".json": "json", ".png": "png", ".info": "skins"}.get(
                os.path.splitext(p)[1], rng.choice(["data", "png", "bin", "skn", "json", "dds", "tex"]))
            if kind == "bin" and "atlas" in p:
                kind = "atlas"
            if kind == "rst" and "data/menu" not in p:
                kind = "data"
            unknown = rng.random() < .25
            if unknown:
                kind = rng.choice(["data", "png", "bin", "skn", "json", "dds", "tex", "tga"])
            if p in taken:
                continue
            taken.add(p)
            h = "%016x" % xxhash.xxh64_intdigest(p)
            if not unknown:
                known[h] = p
            fixed = unknown or os.path.splitext(p)[1] == ""
            entries.append({"h": h, "path": "" if unknown else p, "c": gen.content(kind), "kind": rng.choice(["raw", "gz", "zstd"]), "redir": rng.random() < .08,
                            "ext": HEADED.get(kind, "") if fixed else ""})
        srcs.append({"el": el, "path": a, "wad": rng.choice(WADS), "entries": entries, "salt": rng.randrange(100)})
    for k in range(rng.choice([0, 2, 5])):
        gen.n += 1
        ext = rng.choice(RULE_EXTS)
        el = rng.choice(["client", "game"])
        kind = {".dds": "dds", ".tga": "tga", ".tex": "tex", ".skn": "skn", ".json": "json"}.get(ext, "data")
        p = rng.choice(["P", "data/menu/q", "Plugins/rcp-fe-x/p", "DATA/Final/_skins_"]) + str(gen.n) + ext
        if rng.random() < .2:
            p, kind = rng.choice([f"A{gen.n}/description.json", f"A{gen.n}/DESCRIPTION.json", f"A{gen.n}/mydescription.json", f"A{gen.n}/description.json.txt"]), "json"
        srcs.append({"el": el, "path": p, "c": gen.content(kind)})
    case = base_case(rng, gen, [{"v": v, "srcs": srcs}], storage=rng.choice(["patcher", "stub", "stub"]))
    case["recorded"] = 1
    case["ops"] = [export_op(v, links=rng.choice([None, False]))]
    return case


def export_op(v, prev=None, links=None, lazy=False, **kw):
    return dict(kw, o="export", v=v, prev=prev, links=links, lazy=lazy)


# -- scenarios of MC_Export --

LEAVES = {("a", "x"): 0, ("a", "y"): 1, ("a", "c", "z"): 2, ("b",): 3}


def scenario_case(rng, s, opts):
    """Abstract files mapped to files of archives or plain ones, keeping the shape of the tree"""
    el = rng.choice(["client", "game"])
    vs = [list(v) for v in rng.choice(VERSIONS)]
    gen = Gen(rng, vs, opts)
    names = {}
    top = rng.choice(["assets", "data/q"]) if el == "game" else rng.choice(["plugins/rcp-fe-x", "t", "cdragons"])
    an, cn = rng.sample(["a", "c", "aa", "d.e"], 2)
    long = rng.random() < opts.get("long", 0)
    if long:
        # a directory that the file system refuses
        an, cn = rng.choice([(an, "w" * 256), ("w" * 256, cn)])
    kinds = {}
    for x in LEAVES:
        kind, ext = rng.choice([("dds", ".dds"), ("tex", ".tex"), ("json", ".json"), ("data", ".txt"), ("skn", ".skn")] + ([("bin", ".bin")] if el == "game" else [("data", ".js"), ("data", "")]))
        parts = [{"a": an, "c": cn}.get(p, p) for p in x]
        parts[-1] += str(LEAVES[x])
        names[x] = "/".join([top] + parts) + ext
        kinds[x] = kind
    # some of them are plain files, others are spread over archives
    where = {x: rng.choice(["0", "0", "1"] + (["plain"] if el == "client" else [])) for x in LEAVES}
    single = rng.random() < .4 or long
    if single:
        where = {x: "0" for x in LEAVES}
    arch = ["Plugins/rcp-fe-x/assets.wad", "Plugins/rcp-be-z/assets.wad"] if el == "client" else ["DATA/FINAL/A.wad.client", "DATA/FINAL/B.en_US.wad.client"]
    wads = [rng.choice(WADS), rng.choice(WADS)]
    cids = {}
    store = {x: rng.choice(["raw", "gz", "zstd"]) for x in LEAVES}

    def cid(x, c):
        if (x, c) not in cids:
            cids[x, c] = gen.content(kinds[x])
        return cids[x, c]

    def release(p, src):
        srcs = {}
        for x, c in sorted(src.items()):
            if not c:
                continue
            if where[x] == "plain":
                srcs[x] = {"el": el, "path": names[x], "c": cid(x, c)}
            else:
                a = srcs.setdefault(where[x], {"el": el, "path": arch[int(where[x])], "wad": wads[int(where[x])], "entries": [], "salt": 1})
                h = "%016x" % xxhash.xxh64_intdigest(names[x])
                gen.hashes["game" if el == "game" else "lcu"][h] = names[x]
                a["entries"].append({"h": h, "path": names[x], "c": cid(x, c), "kind": store[x], "redir": False, "ext": HEADED.get(kinds[x], "") if names[x].rsplit("/")[-1].find(".") < 0 else ""})
        return {"v": vs[p - 1], "srcs": [srcs[k] for k in sorted(srcs, key=str)]}
    src, rels, ops = {}, [], []
    for o in s["h"]:
        if o["o"] == "setup":
            src[o["p"]] = {tuple(x): c for x, c in o["s"]}
            rels.append(release(o["p"], src[o["p"]]))
    n = len(rels)
    if rng.random() < .6:
        # directories exported beforehand
        for p in range(1, n + 1):
            if rng.random() < .8:
                ops.append(export_op(vs[p - 1], vs[p - 2] if p > 1 and rng.random() < .8 else None))
    for o in s["h"]:
        if o["o"] == "change":
            src[o["p"]] = dict(src[o["p"]])
            src[o["p"]][tuple(o["x"])] = o["v"]
            rels.append(release(o["p"], src[o["p"]]))
            ops.append({"o": "record", "k": len(rels) - 1})
        elif o["o"] == "export":
            op = export_op(vs[o["p"] - 1], vs[o["q"] - 1] if o["q"] else None, lazy=o["lazy"])
            if o["partial"]:
                op["fault"] = {"at": rng.random(), "kind": rng.choice(["error", "interrupt"]), "when": rng.choice(["before", "half", "after"]), "sticky": rng.random() < .3}
            ops.append(op)
        elif o["o"] == "disturb" and "w" * 256 not in names[tuple(o["x"])]:
            ops.append({"o": "disturb", "v": vs[o["p"] - 1], "how": o["how"], "path": names[tuple(o["x"])], "n": 1})
    if not any(o["o"] == "export" and not o.get("fault") for o in ops[-2:]):
        p = rng.randrange(n)
        ops.append(export_op(vs[p], vs[p - 1] if p and rng.random() < .7 else None))
    case = base_case(rng, gen, rels, "stub")
    case["recorded"] = n
    case["ops"] = ops
    return case


def sample(g, quick, thorough):
    """Histories simulated from MC_Export"""
    scen = g.scenarios("MC_Export", "MC_Export_gen.cfg", simulate=g.pick(150, 2000), depth=12)
    # successors of a same state are all given
    return g.rng.sample(scen, min(len(scen), g.pick(quick, thorough)))


# -- running --

def run(case, env):
    env.op_timeout = 30
    w = ExportWorld(case, env)
    rng = random.Random(case["salt"])
    import cdtb.export as X
    from cdtb.export import CdragonRawPatchExporter
    saved = CdragonRawPatchExporter.export_tft_data, CdragonRawPatchExporter.export_arena_data
    # other data, see C29
    CdragonRawPatchExporter.export_tft_data = lambda self: None
    CdragonRawPatchExporter.export_arena_data = lambda self: None
    if any(o.get("fault") for o in case["ops"]):
        w.predownload()

    def srcs():
        vs = {vtext(case["releases"][r]["v"]): case["releases"][r]["v"] for r in w.recorded}
        return {t: {"v": v, "srcs": w.src_json(w.srcs(v))} for t, v in vs.items()}

    def state():
        s = w.snapshot()
        s["views"] = {d: w.view(d) for d in s["trees"]}
        s["cds"] = {d: w.cdragon(d) for d in s["trees"]}
        return s
    for t in srcs():
        if case.get("presetdirs"):
            os.makedirs(env.path(EXPORTS, t), exist_ok=True)
    disturb(w, env, rng, None, case.get("initial", []))
    for v, name in case.get("oldlists", ()):
        p = env.path(EXPORTS, vtext(v), "cdragon", f"files.{name}.txt")
        with guard.disabled():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("0123456789abcdef\nzzz/old.txt\n" * 3)
    first = dict(state(), srcs=srcs(), contents={k: c["tok"] for k, c in case["contents"].items()})
    ev, nt = [], 0
    try:
        for o in case["ops"]:
            if o["o"] == "record":
                w.record(o["k"])
                if any(x.get("fault") for x in case["ops"]):
                    w.predownload()
                ev.append({"op": "record", "srcs": srcs()})
                continue
            if o["o"] == "disturb":
                disturb(w, env, rng, vtext(o["v"]), [o])
                ev.append(dict(state(), op="disturb"))
                continue
            e = export(w, env, o, case)
            if e is None:
                continue
            nt += 1
            e.update(state())
            d = e["patch"]
            e["cdragon"] = e["cds"].get(d, {"names": [], "lists": {}})
            for k in ("trees", "views"):
                e[k].setdefault(d, {})
            e["reload"] = []
            if e["status"] == "ok":
                from cdtb.hashes import HashGuesser
                st, x = env.call(HashGuesser.unknown_from_export, env.path(EXPORTS, d, "cdragon"))
                e["reload"] = ["%016x" % h for h in sorted(x)] if st == "ok" else ["?" + st]
            ev.append(e)
    finally:
        CdragonRawPatchExporter.export_tft_data, CdragonRawPatchExporter.export_arena_data = saved
    return dict(first, ev=ev, nexports=nt)


def export(w, env, o, case):
    from cdtb.export import CdragonRawPatchExporter
    d = vtext(o["v"])
    out = env.path(EXPORTS, d)
    with w.online():
        patch = w.patch(o["v"])
        prev = w.patch(o["prev"]) if o["prev"] is not None else None
    rel = case["salt"] % 3 == 0
    if rel:
        out = os.path.relpath(out, os.getcwd())
    mode = "full" if prev is None else "diff" if o["links"] is False else "links"
    e = {"op": "export", "patch": d, "prev": vtext(o["prev"]) if prev is not None else "", "mode": mode, "lazy": o["lazy"], "faulted": False}

    def go():
        CdragonRawPatchExporter(out, patch, prev, symlinks=o["links"]).process(overwrite=not o["lazy"])
    f = o.get("fault")
    with w.online():
        if not f:
            st = env.call(go)
        else:
            # count operations on a copy, then fail one of them
            root = env.path(EXPORTS)
            import shutil
            with guard.disabled():
                shutil.copytree(root, root + ".copy", symlinks=True)
            # not removals: nothing can be cleaned up when they fail
            match = lambda label, path: label not in ("remove", "unlink", "rmdir")
            c = faults.Counter(root=root, match=match)
            with faults.FsFaults(c):
                env.call(go)
            with guard.disabled():
                shutil.rmtree(root)
                os.rename(root + ".copy", root)
            c = faults.Counter(at=1 + int(f["at"] * c.n), kind=f["kind"], when=f["when"], sticky=f["sticky"], root=root, match=match)
            with faults.FsFaults(c):
                st = env.call(go)
            e["faulted"] = c.fired is not None
    e["status"] = "ok" if st[0] == "ok" else str(st[1])
    if st[0] != "ok":
        e["tb"] = getattr(env, "last_tb", "")[-600:] if not e["faulted"] else ""
    return e


def disturb(w, env, rng, d, ops):
    """Changes made by someone else in the directory of a patch"""
    with guard.disabled():
        for o in ops:
            dd = d or vtext(o["v"])
            root = env.path(EXPORTS, dd)
            os.makedirs(root, exist_ok=True)
            tree = w.tree(dd)
            files = sorted(p for p, n in tree.items() if n["k"] in "fl")
            for _ in range(o.get("n", 1)):
                how = o["how"] if o["how"] != "any" else rng.choice(["remove", "remove", "overwrite", "stray", "straydir", "link", "dirlink", "dirfile", "dangling", "toplink"])
                p = o.get("path") or (rng.choice(files) if files else "s1.txt")
                full = os.path.join(root, p)
                if how in ("stray", "straydir", "toplink", "dangling") and not o.get("path"):
                    base = os.path.dirname(p)
                    p = os.path.join(base if rng.random() < .6 else rng.choice(["", "unknown", "game", "st"]), rng.choice(["stray.txt", "stray.png", "zz", ".x"]))
                    if how == "straydir":
                        p = os.path.join(os.path.dirname(p), "sdir", "in", "f.txt")
                    full = os.path.join(root, p)
                if any(os.path.islink(os.path.join(root, q)) or os.path.isfile(os.path.join(root, q)) for q in parents(p)):
                    continue
                if how in ("dirlink", "dirfile"):
                    # a directory becomes a link, or a file
                    q = [x for x in parents(p) if os.path.isdir(os.path.join(root, x))]
                    if not q:
                        continue
                    import shutil
                    full = os.path.join(root, rng.choice(q))
                    shutil.rmtree(full)
                    if how == "dirfile":
                        with open(full, "w") as f:
                            f.write("not a directory")
                        continue
                    os.symlink(env.path("outside/sub") if rng.random() < .5 else "../nowhere", full)
                    continue
                if os.path.isdir(full) and not os.path.islink(full):
                    continue
                os.makedirs(os.path.dirname(full), exist_ok=True)
                if os.path.lexists(full):
                    os.remove(full)
                if how == "remove":
                    continue
                if how in ("overwrite", "stray", "straydir"):
                    with open(full, "wb") as f:
                        f.write(b"stray %d" % rng.randrange(1000))
                elif how == "dangling":
                    os.symlink("nowhere/at/all", full)
                else:
                    key = lambda x: [999] if x == "main" else [int(y) for y in x.split(".")]
                    others = [x for x in w.dirs() if key(x) < key(dd)]
                    if how == "link" and not others:
                        continue
                    t = rng.choice(["outside/f.txt", "outside/sub"] + [f"{EXPORTS}/{x}" for x in others])
                    if o["how"] == "link" and others:
                        t = f"{EXPORTS}/{others[0]}/{p}"
                    os.symlink(os.path.relpath(env.path(t), os.path.dirname(full)) if rng.random() < .5 else env.path(t), full)


def parents(p):
    parts = p.split("/")
    return ["/".join(parts[:i]) for i in range(1, len(parts))]
