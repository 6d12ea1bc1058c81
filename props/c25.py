"""C25: each guessing method finds every path it promises to find"""
import os
import random
import signal
import struct
import sys
import time

from vlib import guessdrv as D
from vlib.cdn import Cdn

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): predicates over paths defining the variants each method promises, model checked against their construction; paths found by real guessers validated"
NOTE = ("The specification defines, for every guessing method, which paths it promises to try from the known ones (character by character), and which paths each documented "
        "form of mention in archive contents stands for. TLC checks these predicates on all small paths, then decides for generated lists, arguments and targets "
        "whether a path missed by the real method (called directly or by hashes-guess) was promised.")
RULE = ("known paths built from a small vocabulary so that they interact; targets obtained by mutations at and beyond the bounds of each method; all methods, their arguments, "
        "several methods in one command; archives with every form of mention in every kind of file among unrelated contents; non-trivial: a target is found")
ASSUMPTIONS = ["LCU paths whose numbers are deliberately not substituted (champions, items, hashed names) are not used", "directories contain no dot, paths no {}"]
TRACE = "Trace_C25"
CASE_TIMEOUT = 120
CHARS = ["annie", "olaf", "petbee", "petbeeprime", "sightward", "sru_blue", "tft9_ahri"]
WORDS = ["red", "blue", "2x", "tx", "cm", "q", "w%1", "glow", "icon", "hud", "fx", "12", "7", "1234"]
LANGS = ["en_us", "fr_fr", "zh_tw", "vn_vn", "ar_ae", "pt_br"]
PLUGINS = ["rcp-fe-lol-x", "rcp-be-y", "rcp-fe-lol-loot", "rcp-be-lol-game-data", "p%1"]
EXTS = [".dds", ".png", ".jpg", ".bin", ".json", ".txt", ".js", ".preload", ".tex", ".x0", ".500"]
GD = "plugins/rcp-be-lol-game-data/global/default/"
METHODS = {"lcu": ["numbers", "basenames", "names", "words", "addword", "ext", "regionlang", "plugin", "fromgame", "patterns"],
           "game": ["numbers", "basenames", "names", "words", "addword", "ext", "skins", "character", "prefixes", "suffixes", "lang", "groups", "fromlcu", "charfiles", "shaders", "chromas"]}
CLI = {"numbers": "numbers", "basenames": "basenames", "words": "words", "ext": "ext", "regionlang": "regionlang", "plugin": "plugin", "skins": "skin-num",
       "character": "character", "prefixes": "prefixes"}


def designs(g):
    yield "MC_Variants", "MC_Variants_thorough.cfg" if g.thorough else "MC_Variants.cfg", {"workers": 8, "timeout": 1500}


# -- known paths --

def number(rng):
    return rng.choice(["0", "1", "2", "9", "10", "11", "99", "01", "007", "100", "120", str(rng.randrange(9999))])


def base(rng):
    parts = [rng.choice(WORDS + CHARS + ["skin" + number(rng), number(rng)]) for _ in range(rng.randrange(1, 5))]
    s = parts[0]
    for p in parts[1:]:
        s += rng.choice("___-.") + p
    return s + rng.choice(EXTS * 8 + ["", ".", "..dds"])


KINDS = {"skins": [0, 1, 2, 3, 6], "groups": [0, 3], "shaders": [8, 8, 9], "suffixes": [9], "character": [0, 3, 4, 5], "lang": [6, 7], "charfiles": [0, 3, 4, 5, 6]}


def game_path(rng, m=None):
    c, k = rng.choice(CHARS), rng.randrange(14)
    if m in KINDS and rng.random() < .9:
        c, k = rng.choice(CHARS[:3]) if m != "charfiles" else c, rng.choice(KINDS[m])
    skin = rng.choice(["base", "skin0", "skin1", "skin01", "skin2", "skin11", "skin120", "skin02"])
    lang = rng.choice(LANGS)
    if k < 3:
        return f"assets/characters/{c}/skins/{skin}/{c}_{rng.choice([skin, 'base', rng.choice(WORDS)])}_{rng.choice(WORDS)}{rng.choice(EXTS)}"
    if k == 3:
        return f"assets/characters/{c}/skins/{skin}/particles/{c}_{skin}_{base(rng)}"
    if k == 4:
        return f"data/characters/{c}/{rng.choice(['skins/' + skin, 'animations/' + skin, c])}.bin"
    if k == 5:
        return f"{rng.choice(['assets', 'data'])}/characters/{c}/hud/{c}_{rng.choice(WORDS)}{rng.choice(EXTS)}"
    if k == 6:
        return f"assets/sounds/wwise2016/vo/{lang}/characters/{c}/skins/{skin}/{c}_{skin}_vo_{rng.choice(['audio', 'events'])}.{rng.choice(['bnk', 'wpk'])}"
    if k == 7:
        return f"data/menu/{rng.choice(['fontconfig', 'lol', 'x'])}_{lang}{rng.choice(['', '_' + lang])}.{rng.choice(['txt', 'stringtable'])}"
    if k == 8:
        v = rng.choice([".ps_2_0", ".vs_3_0", ".ps", ".vs", ".ps.dx11", ".vs-dx11", ".ps.glsl_100", ".vs_2_0.metal_300", ".psx", ".ps_1_0", ".ps.vs"])
        return f"assets/shaders/generated/shaders/{rng.choice(['', 'env/'])}{rng.choice(WORDS)}_{rng.choice(WORDS)}{v}"
    if k == 9:
        return f"assets/{rng.choice(WORDS)}/{rng.choice(WORDS)}{rng.choice(['.', '.', '.a.', '_'])}{rng.choice(['sru', 'tt_x', 'map12'])}{rng.choice(EXTS)}"
    if m == "fromgame":
        return f"{rng.choice(['assets', 'data'])}/{rng.choice(WORDS)}/{base(rng).rstrip('.')}" + rng.choice(["", ".dds", ".dds", ".json"])
    return f"{rng.choice(['assets', 'data', 'assets/items', 'data/items/icons2d', 'ux'])}{rng.choice(['', '/' + rng.choice(WORDS)])}/{base(rng)}"


def lcu_path(rng, m=None):
    if m == "fromlcu" and rng.random() < .8:
        return GD + rng.choice(["assets/", "data/", "assets/", "x/", "v1/assets/"]) + rng.choice(WORDS) + "/" + base(rng).rstrip(".") + rng.choice(["", ".png", ".jpg", ".json"])
    pl = rng.choice(PLUGINS)
    k = rng.randrange(12)
    rl = rng.choice(["global/default", "global/default", "global/en_us", "euw/fr_fr", "na/default", "br/pt_br"])
    if k == 0:
        return f"plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/{rng.choice(['chest', 'material'])}_{number(rng)}.png"
    if k == 1:
        return GD + rng.choice(["assets/items/icons2d/", "data/x/"]) + base(rng)
    if k == 2:
        return f"plugins/{pl}/{rng.choice(['description.json', 'x/a.js'])}"
    if k == 3:
        return base(rng)
    return f"plugins/{pl}/{rl}/{rng.choice(['', '', 'a/', 'img/b/', rng.choice(WORDS) + '/'])}{base(rng)}"


# -- targets --

def mutate(rng, kind, m, a, known, others):
    p, q = rng.choice(known), rng.choice(known)
    d, _, b = p.rpartition("/")
    import re
    if m == "basenames":
        return rng.choice([d, d.rpartition("/")[0]]) + "/" + q.rpartition("/")[2]
    if m == "names":
        return rng.choice([d, d.rpartition("/")[0]]) + "/" + rng.choice(a["names"])
    if m == "numbers":
        ms = list(re.finditer(r"[0-9]+", p))
        if not ms:
            return None
        x = rng.choice([y for y in ms if y.start() > len(d)] or ms)
        n = rng.choice([0, 1, a["nmax"] - 1, a["nmax"] - 1, a["nmax"], rng.randrange(a["nmax"]), rng.randrange(a["nmax"])])
        n = str(n).zfill(a["digits"] if rng.random() < .9 else rng.randrange(4))
        return p[:x.start()] + n + p[x.end():]
    if m in ("words", "addword"):
        ms = list(re.finditer(r"[^/_.-]+", p))
        words = a["words"] if m == "words" and a["words"] else [w for z in known for w in re.split(r"[/_.-]", z)[:-1] if w] or ["x"]
        i = rng.randrange(max(0, len(ms) - 5), len(ms))
        x = ms[i]
        if m == "addword":
            s = rng.choice("-_")
            w = rng.choice(words)
            return rng.choice([p[:x.start()] + w + s + p[x.start():], p[:x.end()] + s + w + p[x.end():]])
        j = min(i + a["nold"] - 1, len(ms) - 1)
        new = rng.choice(words)
        for _ in range(a["nnew"] - 1):
            new += rng.choice("-_") + rng.choice(words)
        return p[:x.start()] + new + p[ms[j].end():]
    if m == "ext":
        return os.path.splitext(p)[0] + os.path.splitext(q)[1]
    if m == "regionlang":
        t = p.split("/")
        if len(t) < 5:
            return None
        t[2] = rng.choice(["br", "global", "euw", "vn2", "xx", "pbe"])
        t[3] = rng.choice(LANGS + ["default", "zz_zz"])
        return "/".join(t)
    if m == "plugin":
        t = p.split("/")
        if len(t) < 3:
            return None
        t[1] = rng.choice(q.split("/")[1:2] + ["rcp-fe-other"])
        return "/".join(t)
    if m in ("fromgame", "fromlcu"):
        o = rng.choice(others)
        s, e = os.path.splitext(o)
        if m == "fromgame":
            return GD + s + rng.choice([".png", ".jpg", e])
        s = s[len(GD):] if s.startswith(GD) else s
        return s + rng.choice([".dds", ".json", e])
    if m == "patterns":
        if rng.random() < .3:
            return p.replace(".png", "_splash.png")
        i, j = rng.choice([8000, 8100, 8300, 8500, 8600]), rng.choice([0, 8000, 8200, 8500])
        k = i + rng.choice([0, 1, 50, 99, 100])
        r = "plugins/rcp-fe-lol-perks/global/default/images/"
        lang = rng.choice(LANGS)
        return rng.choice([f"{r}inventory-card/{i}/p{i}_s{j}_k{rng.choice([0, k])}.jpg", f"{r}construct/{i}/" + rng.choice(["environment.jpg", "construct.png", f"keystones/{k}.png", f"second/{j}.png"]),
                           "plugins/rcp-be-sanitizer/global/default/" + rng.choice([f"{rng.randrange(6)}.{rng.choice(['filter', 'unfilter', 'whitelist'])}" + rng.choice(["", ".language." + lang[:2], ".country." + lang[3:], ".region.euw", ".locale." + lang]) + ".csv",
                                                                                    rng.choice(["allowedchars", "projectedchars1337", "variantaliases"]) + rng.choice([".locale." + lang, ".language." + lang[:2]]) + ".txt"])])
    if m == "skins":
        c = re.search("/characters/([^/]+)/", p)
        skins = re.findall("/characters/" + c.group(1) + r"/skins/(base|skin\d+)/", " ".join(known)) if c else []
        skins = skins or ["base"]
        same = [rng.choice(skins)] if rng.random() < .5 else skins
        return re.sub(r"base|skin\d+", lambda _: rng.choice(same), p)
    if m == "character":
        c = [x for x in re.findall(r"characters/([^/]+)/", p)]
        if not c:
            return None
        n = rng.choice(CHARS)
        return p.replace(c[0], n)
    if m == "prefixes":
        return (d + "/" if d else "") + rng.choice(a["prefixes"] or ["x_"]) + b
    if m == "suffixes":
        suf = [".sru", ".tt_x", ".map12", "", ".dds", ".ps"]
        s, e = os.path.splitext(p)
        s2, e2 = os.path.splitext(s)
        return rng.choice([s2, s]) + rng.choice(suf + [os.path.splitext(os.path.splitext(q)[0])[1]]) + e
    if m == "lang":
        n = rng.choice(LANGS + ["tr_tr", "zz_zz"])
        return re.sub("|".join(LANGS), n, p)
    if m == "groups":
        c = rng.choice(CHARS[:3])
        nums = list(dict.fromkeys(str(int(x)) for x in ["0"] + re.findall("^assets/characters/" + c + r"/skins/skin(\d+)/", "\n".join(known), re.M)))
        nums = rng.sample(nums + rng.sample(["3", "02"], rng.random() < .1), rng.randrange(1, len(nums) + 1))
        if rng.random() < .9:
            nums.sort()
        return f"data/{c}" + "".join("_skins_skin" + n for n in nums) + ".bin"
    if m == "chromas":
        gs = a["groups"]
        c = rng.choice(gs)["char"]
        gs = [x["nums"] for x in gs if x["char"] == c] + [["root"]]
        its = {x for s in rng.sample(gs, rng.randrange(1, len(gs) + 1)) for x in s}
        if rng.random() < .15:
            its ^= {rng.choice(["0", "5", "root"])}
        s = sorted("_skins_" + (x if x == "root" else "skin" + x) for x in its)
        return f"data/{c}" + "".join(s) + ".bin"
    if m == "charfiles":
        c = rng.choice(a["chars"] or CHARS)
        n = rng.choice([0, 9, 9, 10, 199, 199, 499, rng.choice([200, 500]), rng.randrange(200)])
        if rng.random() < .5:
            return f"data/characters/{c}/" + rng.choice([f"skins/skin{n}.bin", f"animations/skin{n}.bin", f"tiers/tier{n}.bin"])
        return rng.choice([f"data/characters/{c}/" + rng.choice(["skins/root.bin", f"skins/base/{c}.skl", f"skins/base/{c}.skn", f"skins/base/{c}_tx_cm.dds", "tiers/root.bin", f"{c}.bin", f"{c}.ddf", f"hud/{c}_circle.dds",
                                                                 f"hud/{c}_square.dds", f"skins/skin{n}.bin", f"skins/skin{n}.bin", f"animations/skin{n}.bin", f"tiers/tier{n}.bin"]),
                           f"assets/characters/{c}/hud/{c}_circle.dds", f"assets/characters/{c}/hud/{c}_square.dds", f"characters/{c}"])
    if m == "shaders":
        x = re.match(r".*\.[pv]s(?:_[23]_0)?", p)
        s = x.group(0) if x else p
        v = rng.choice([".dx11", ".dx9", ".dx9sm3", ".glsl", ".metal", "-dx11", "-metal"])
        return s + v + rng.choice(["", "", "_" + str(100 * rng.randrange(200)), "_0", "_19900", "_20000", "_50"])


def args(rng, kind, m):
    a = {"words": [], "names": [], "chars": [], "groups": [], "prefixes": ["2x_", "2x_sd_", "4x_", "4x_sd_", "sd_"] if m == "prefixes" else [], "others": [],
         "without": ["assets/characters/", "vo/", "sfx/", "skins_skin"] if m == "addword" and kind == "game" else [], "plugin": "", "ext": "", "nold": 1, "nnew": 1,
         "nmax": 10000 if kind == "lcu" else 100, "digits": 0}
    kw = {}
    if m == "names":
        a["names"] = [base(rng) for _ in range(rng.randrange(1, 4))] + ["sub/x.js"]
    elif m == "numbers" and rng.random() < .7:
        a["nmax"] = kw["nmax"] = rng.choice([1, 2, 10, 11, 100, 101, 500])
        if rng.random() < .6:
            kw["digits"] = rng.choice([True, True, 1, 2, 3])
            a["digits"] = len(str(a["nmax"] - 1)) if kw["digits"] is True else kw["digits"]
    elif m == "words" and kind == "lcu":
        if rng.random() < .5:
            pl = rng.choice(PLUGINS)
            kw["plugin"], a["plugin"] = pl, f"plugins/{pl}/"
        if rng.random() < .5:
            kw["fileext"] = a["ext"] = rng.choice([".png", ".js", ".dds"])
        if rng.random() < .6:
            a["words"] = kw["words"] = rng.sample(WORDS + ["new", "other"], rng.randrange(1, 5))
        if rng.random() < .6:
            a["nold"] = kw["nold"] = rng.choice([1, 2, 2, 3])
            a["nnew"] = kw["nnew"] = rng.choice([1, 2]) if a["words"] else 1
    elif m == "prefixes" and rng.random() < .5:
        a["prefixes"] = kw["prefixes"] = rng.sample(["a_", "2x_", "x%", "new"], 2)
    elif m == "chromas":
        for c in rng.sample(CHARS, rng.randrange(1, 4)):
            nums = [0] + rng.sample(range(1, 120), 9)
            for _ in range(rng.randrange(1, 4)):
                a["groups"].append({"char": c, "nums": [str(nums.pop(0)) for _ in range(rng.choice([1, 1, 2, 3]) if len(nums) > 3 else 1)]})
        rng.shuffle(a["groups"])
    elif m == "charfiles" and rng.random() < .5:
        a["chars"] = kw["chars"] = rng.sample(CHARS + ["petnew", "other"], 2)
    return a, kw


# -- mentions --

def mixed(rng, s):
    """Same path, other case"""
    return rng.choice([s, s.upper(), "".join(rng.choice([c, c.upper()]) for c in s)])


def name(rng, ext=None):
    s = "/".join(["".join(rng.choice("abcdxyz019_") for _ in range(rng.randrange(1, 8))) for _ in range(rng.randrange(1, 4))])
    return s + (rng.choice([".png", ".dds", ".bin", ".lua", ".troy", "", ".a.tex", ".x"]) if ext is None else ext)


def lcu_file(rng, k):
    """Path, mentions and content"""
    form = rng.choice(["fe", "data", "assets", "relative", "quoted", "template", "map", "hextech", "plugin", "champion", "item", "splash", "noise"])
    path = f"plugins/rcp-fe-lol-x/global/default/f{k}" + rng.choice([".js", ".html", ".json", ".css", ".txt", ".weird"])
    if form == "noise":
        return path, [], rng.choice([b"", b"[", b"[1, 2]", b"{}", b"null", b"5", b"\xff\xfe\x00", b'"\\ud800"', b"{\"a\": \"\xe9\"}"])
    n = rng.randrange(1, 4)
    ms, txt = [], ""
    if form in ("hextech", "plugin", "champion", "item", "splash"):
        import json
        if form == "hextech":
            path = "plugins/rcp-fe-lol-loot/global/default/trans.json"
            xs = [name(rng, "") for _ in range(n)]
            doc = {x: rng.choice(["a", "", 5]) for x in xs}
        elif form == "champion":
            path = GD + "v1/champion-summary.json"
            xs = [str(rng.randrange(-1, 900)) for _ in range(n)]
            doc = [{"id": int(x), "name": "X"} for x in xs]
        else:
            path = path.rsplit(".", 1)[0] + ".json"
            if form == "plugin":
                xs = ["rcp-fe-" + name(rng, "").replace("/", "-")]
                doc = {"name": xs[0], "pluginDependencies": {}}
            elif form == "item":
                xs = ["/v1/" + name(rng, ".json") for _ in range(n)]
                doc = {"id": 5, "recommendedItemDefaults": [mixed(rng, x) for x in xs]}
            else:
                xs = ["w" + name(rng, "").replace("/", "") for _ in range(1)]
                files = {f"f{j}": f"{rng.choice(['a', 'sub/b'])}{j}-splash-{xs[0]}.{rng.choice(['png', 'webm'])}" for j in range(n)}
                doc = {"musicVolume": 1, "files": {k2: mixed(rng, v).replace("-SPLASH-", "-splash-") for k2, v in files.items()}}
                doc["files"] = files
                return path, [{"form": "splash", "x": xs[0], "y": v} for v in files.values()], json.dumps(doc).encode()
        data = json.dumps(doc, indent=rng.choice([None, 2])).encode()
        if rng.random() < .3:
            data = b"\xef\xbb\xbf" + data
        return path, [{"form": form, "x": x, "y": ""} for x in xs], data
    for j in range(n):
        y, glue = "", rng.choice(["\n", " ", "\n\n", ";"])
        if form == "fe":
            x = "lol-" + name(rng, "").replace("/", "-") + "/" + name(rng).replace(" ", "")
            t = rng.choice(['"/fe/%s"', 'url(/fe/%s)', 'url("fe/%s")', "'/fe/%s?v=1'", "=/fe/%s\\n"]) % rng.choice([x, mixed(rng, x)])
        elif form == "data":
            x = name(rng)
            t = rng.choice(['"/DATA/%s"', "x/DATA/%s)", "'../DATA/%s'"]) % mixed(rng, x)
        elif form == "assets":
            x = name(rng)
            t = rng.choice(['"/lol-game-data/assets/%s"', "(/lol-game-data/assets/%s)", "https://lol-game-data/assets/%s?x"]) % mixed(rng, x)
        elif form == "relative":
            x = name(rng)
            t = rng.choice(['require("./%s")', "url(../%s)", "import x from '../../%s'", " ./%s,"]) % mixed(rng, x)
        elif form == "quoted":
            x = name(rng, rng.choice([".js", ".json", ".webm", ".html", ".png", ".jpg", ".css"]))
            x = x.lstrip("_/")
            x = "q" + x if x[0] == "." else x
            t = rng.choice(['"%s"', "'%s'", "{\"%s\": 1}", '"%s?x"']) % (x[:-5] + x[-5:] if rng.random() < .5 else x.rsplit(".", 1)[0].upper() + "." + x.rsplit(".", 1)[1])
        elif form == "template":
            x = name(rng, "").replace("/", "-")
            t = '<template id="%s-template-%s">' % (rng.choice(["lol", "a-b"]), x)
        else:
            x = name(rng, "").replace("/", "_") + ".js"
            t = f"//# sourceMappingURL={x}.map"
            glue = "\n"
        ms.append({"form": form, "x": x, "y": y})
        txt += t + glue
    return path, ms, (b"\xef\xbb\xbf" if rng.random() < .2 else b"") + (rng.choice(["", "var a = 1;\n", "<html>\n"]) + txt + rng.choice(["", "\n}", "é"])).encode()


def game_file(rng, k):
    form = rng.choice(["bin", "bin", "bin", "preload", "include", "atlas", "text", "text", "noise"])
    d = f"data/f/{rng.choice(['a', 'b/c'])}"
    n = rng.randrange(1, 4)
    ms, data = [], b""
    noise = [b"\0", b"\xff\x80\0", b"abc\0", b'"', b"\0\0\0\0", b"\x10\0\xe9\0", b"\n"]
    # what looks like a path but is not one
    bad = {"bin": b"\x0b\0ASSETS/\xe9\xe9.x", "preload": b'Name="\xe9.lua"', "include": b'#include "\xe9.h"\n', "atlas": b"\xe9.png\n", "text": b"DATA/\xe9\0"}.get(form, b"")
    noise += [bad, bad]
    if form == "noise":
        return f"{d}/f{k}" + rng.choice([".bin", ".preload", ".hls", ".atlas", ".txt", ""]), [], rng.choice([b"", b"\xff", b"ASSETS/\xe9\0", b"\x09\x00ASSETS/\xe9\xe9\0", b'Name="\xe9"', b'#include "\xe9"', b"DATA/", b"PROP"])
    if form == "bin":
        path = rng.choice([f"{d}/f{k}.bin", f"{d}/f{k}.inibin"])
        for _ in range(n):
            pre = rng.choice(["ASSETS", "DATA", "Characters", "Shaders", "Maps", "Maps/MapGeometry", "Gameplay", "ClientStates", "Patching", "Loadouts"])
            x = name(rng)
            if rng.random() < .1:
                x = "z" * rng.choice([250, 256, 400]) + "/" + x
            raw = f"{pre}/{mixed(rng, x)}"
            ms.append({"form": form, "x": raw.lower(), "y": ""})
            data += (rng.choice(noise) if data or rng.random() < .5 else b"") + struct.pack("<H", len(raw)) + raw.encode() + rng.choice(noise + [b"extra"])
        data = rng.choice([b"PROP\x03\0\0\0", b"", b"", b"x"]) + data
    elif form == "preload":
        path = f"{d}/f{k}.preload"
        for _ in range(n):
            x = name(rng, rng.choice([".lua", ".troy", "", ""]))
            ms.append({"form": form, "x": x, "y": ""})
            data += rng.choice(noise) + b'Name="%s"' % mixed(rng, x).encode() + rng.choice(noise)
    elif form == "include":
        path = f"{d}/f{k}" + rng.choice([".hls", ".ps_2_0", ".vs_3_0", ".ps_3_0", ".vs_2_0"])
        for _ in range(n):
            x = rng.choice(["", "", "../", "./", "../../"]) + name(rng, rng.choice([".hls", ".h"]))
            ms.append({"form": form, "x": x, "y": ""})
            data += rng.choice([b"\n", b"  ", b"//\xe9\n", bad]) + b'#include "%s"' % mixed(rng, x).encode() + b"\r\n"
    elif form == "atlas":
        path = f"{d}/f{k}.atlas"
        for _ in range(n):
            x = name(rng, rng.choice([".png", ".tex"]))
            ms.append({"form": form, "x": x, "y": ""})
            data += rng.choice([b"", b"size: 1,2\n", b"\xe9\n", b"\n", bad]) + mixed(rng, x).encode() + b"\n"
    else:
        path = f"{d}/f{k}" + rng.choice([".luaobj", ".txt", ".xml", ".cfg", ""])
        for _ in range(n):
            pre = rng.choice(["ASSETS", "Common", "DATA", "DATA_SOON", "DATA_Soon", "Gameplay", "Global", "LEVELS", "Loadouts", "UX", "UIAutoAtlas"])
            x = name(rng)
            raw = f"{pre}/{mixed(rng, x)}"
            low = raw.lower()
            ms.append({"form": form, "x": "data/" + low[len("data_soon/"):] if low.startswith("data_soon/") else low, "y": ""})
            how = rng.randrange(4)
            if not data and rng.random() < .25:
                # at the beginning of the file
                if rng.random() < .4:
                    data += struct.pack(rng.choice(["<H", "<L"]), len(raw)) + raw.encode() + rng.choice([b"xyz", b" 1/2", b"."]) + b"\0"
                    continue
                data += rng.choice([b"", b"\0\0", b"\0\0\0", b"\0\0\0\0", b"\x05\0", struct.pack("<H", len(raw)), struct.pack("<L", len(raw)), b"\xff" * 4]) + raw.encode() + rng.choice([b"\0", b""])
                if data.endswith(raw.encode()):
                    break
            elif how == 0:
                data += rng.choice(noise) + b"\0" + struct.pack("<H", len(raw)) + raw.encode() + rng.choice([b"xyz", b" 1/2", b"."]) + b"\0"
            elif how == 1:
                data += (rng.choice(noise) if data or rng.random() < .5 else b"") + struct.pack("<L", len(raw)) + raw.encode() + rng.choice([b"xyz", b" 1/2", b"."]) + b"\0"
            else:
                data += rng.choice([b"\0", b'"', b"(", b"\xff\xff\n", b"<a>\t"]) + raw.encode() + rng.choice([b"\0", b'"', b"\n", b"\xe9", b",", b"\x05\0"])
    return path, ms, data


def greps(rng, kind, f, m, dirs):
    """Candidates for a mention"""
    x, y = m["x"], m["y"]
    dd = rng.choice(dirs)
    if kind == "lcu":
        a, _, b = x.partition("/")
        return {"fe": [f"plugins/rcp-fe-{a}/global/default/{b}"], "data": [GD + "data/" + x], "assets": [GD + x], "relative": [dd + "/" + x], "quoted": [dd + "/" + x],
                "template": [dd + "/" + x + "/template.html"], "map": [dd + "/" + x], "hextech": [GD + f"v1/hextech-images/{x}.png"],
                "plugin": [f"plugins/{x}/global/default/" + rng.choice(["index.html", "init.js", "init.js.map", "bundle.js", "trans.json", "css/main.css", "license.json"])],
                "champion": [GD + f"v1/champions/{x}.json", GD + f"v1/champion-splashes/{x}/metadata.json"], "item": [GD[:-1] + x],
                "splash": ["plugins/rcp-fe-lol-splash/global/default/splash-assets/" + x + "/" + s for s in ("config.json", y)]}[m["form"]]
    s = x.rsplit(".", 1)[0]
    e = "" if "." not in x else "." + x.rsplit(".", 1)[1]
    d = os.path.dirname(f)
    up = x.rpartition("/")[0]
    ret = [x]
    if e == ".lua":
        ret += [s + ".luabin", s + ".luabin64", s + ".preload"]
    if m["form"] == "bin":
        ret += ["assets/" + x, "data/" + x, up, up.rpartition("/")[0], f"data/{x}.mapgeo", f"data/{x}.materials.bin", s + ".dds"]
        if x.startswith("shaders"):
            ret += [f"assets/shaders/generated/{x}{z}{v}" for z in (".ps_2_0", ".vs", ".vs_3_0") for v in ("", ".dx11", "-metal")]
    elif m["form"] == "preload":
        ret += [f"data/shared/particles/{s}.troybin", f"{d}/{x}.preload"]
    elif m["form"] in ("include", "atlas"):
        ret += [os.path.normpath(f"{d}/{x}")]
    return [r for r in ret if r]


def cases(g):
    rng = g.rng
    allm = [(k, m) for k in METHODS for m in METHODS[k]] + [(k, m) for k in METHODS for m in ("numbers", "numbers", "words")]
    for i in range(g.pick(14, 120)):
        for kind, m in allm:
            mk = game_path if kind == "game" else lcu_path
            a, kw = args(rng, kind, m)
            n = 4 if m in ("words", "addword") and not a["words"] else rng.randrange(2, 9)
            for _ in range(30):
                known = list(dict.fromkeys(mk(rng, m) for _ in range(n)))
                others = [(lcu_path if kind == "game" else game_path)(rng, m) for _ in range(6)]
                if m == "skins":
                    known = [p for p in known if p.count("skin") + p.count("base") < 5] or known[:1]
                if m == "suffixes":
                    known = [p for p in known if "." not in p.rpartition("/")[0]] or ["assets/a.dds"]
                a["others"] = others
                targets = {mutate(rng, kind, m, a, known, others) for _ in range(40 if m == "charfiles" else 16)} - {None} - set(known)
                targets = sorted(t for t in targets if t and "{" not in t)
                if targets:
                    break
            if not targets:
                continue
            yield {"kind": kind, "ms": [{"m": m, "a": a, "kw": kw}], "known": known, "targets": targets, "cli": False,
                   "tty": rng.choice(["", "", "none", "once", "once", "twice"]), "at": rng.choice([0, 0, 1, 3])}
        # several methods, using what the previous ones found
        for _ in range(4):
            kind = rng.choice(["lcu", "game"])
            mk = game_path if kind == "game" else lcu_path
            ms, known = [], list(dict.fromkeys(mk(rng) for _ in range(3)))
            targets, pool = set(), list(known)
            for _ in range(rng.randrange(2, 5)):
                m = rng.choice(["basenames", "basenames", "names", "names", "numbers", "ext"])
                a, kw = args(rng, kind, m)
                ms.append({"m": m, "a": a, "kw": kw})
                for _ in range(6):
                    t = mutate(rng, kind, m, a, pool, [])
                    if t and "{" not in t and t not in known:
                        targets.add(t)
                        pool.append(t)
                    if m == "names" and rng.random() < .6:
                        n = f"new{rng.randrange(3)}/{base(rng)}"
                        a["names"].append(n)
                        t = rng.choice(sorted({p.rpartition("/")[0] for p in known} - {""}) or ["x"]) + "/" + n
                        targets.add(t)
                        pool.append(t)
            yield {"kind": kind, "ms": ms, "known": known, "targets": sorted(targets), "cli": False}
        # command
        kind = rng.choice(["lcu", "game"])
        ms = rng.sample([m for m in METHODS[kind] if m in CLI], rng.randrange(1, 4))
        mk = game_path if kind == "game" else lcu_path
        known = list(dict.fromkeys(mk(rng) for _ in range(4)))
        known = [p for p in known if p.count("skin") + p.count("base") < 4] or ["assets/a_1.dds"]
        defaults = {m: args(random.Random(0), kind, "" if m == "numbers" else m)[0] for m in ms}
        if "prefixes" in ms:
            defaults["prefixes"]["prefixes"] = ["2x_", "2x_sd_", "4x_", "4x_sd_", "sd_"]
        if "words" in ms:
            defaults["words"].update(words=[], plugin="", ext="", nold=1, nnew=1)
        targets = {mutate(rng, kind, m, defaults[m], known, ["x"]) for m in ms for _ in range(10)} - {None} - set(known)
        targets = sorted(t for t in targets if t and "{" not in t)
        if targets:
            yield {"kind": kind, "ms": [{"m": m, "a": defaults[m], "kw": {}} for m in ms], "known": known, "targets": targets, "cli": True}
        # archive contents
        for kind in ("lcu", "game", "game", "lcu"):
            for cli in (False, False, True)[:rng.randrange(1, 4)]:
                files = {}
                for k in range(rng.randrange(1, 6)):
                    p, ms, data = (lcu_file if kind == "lcu" else game_file)(rng, k)
                    files[p] = (ms, data)
                known = list(files) + [(game_path if kind == "game" else lcu_path)(rng) for _ in range(rng.randrange(3))]
                known = list(dict.fromkeys(known))
                dirs = sorted({p[:i] for p in known for i, ch in enumerate(p) if ch == "/" and i})
                targets = set()
                for p, (ms, data) in files.items():
                    for m in ms:
                        targets |= set(rng.sample(c, min(len(c), 3)) if (c := greps(rng, kind, p, m, dirs)) else [])
                targets -= set(known)
                hidden = rng.random() < .15     # one scanned file is not known by name
                plain = kind == "game" and not cli and {m["form"] for ms, _ in files.values() for m in ms} <= {"text"}
                yield {"kind": kind, "files": plain and rng.random() < .8, "grep": [{"path": p, "mentions": ms, "data": data, "how": rng.choice(["raw", "gz", "zstd"])} for p, (ms, data) in files.items()],
                       "known": known, "targets": sorted(t for t in targets if t), "cli": cli, "version": rng.choice([[1, 0], [2, 0], [3, 1]]), "hidden": hidden}


def nontrivial(case, trace):
    return any(t["found"] for e in trace["ev"] for t in e.get("targets", ()))


def fingerprint(case, trace, clauses):
    return ",".join(sorted(clauses))


CALLS = {"numbers": "substitute_numbers", "basenames": "substitute_basenames", "names": "check_basenames", "words": "substitute_basename_words", "addword": "add_basename_word",
         "ext": "substitute_extensions", "regionlang": "substitute_region_lang", "plugin": "substitute_plugin", "fromgame": "guess_from_game_hashes", "patterns": "guess_patterns",
         "skins": "substitute_skin_numbers", "character": "substitute_character", "prefixes": "check_basename_prefixes", "suffixes": "substitute_suffixes", "lang": "substitute_lang",
         "groups": "guess_skin_groups_bin", "fromlcu": "guess_from_lcu_hashes", "charfiles": "guess_characters_files", "chromas": "guess_skin_groups_bin_using_chromas", "shaders": "guess_shader_variants"}


def run(case, env):
    with Cdn() as cdn:
        for m in case.get("ms", ()):
            if m["a"]["groups"]:
                skins_data(cdn, m["a"]["groups"])
        return run_with(case, env)


def skins_data(cdn, groups):
    """Skins and their chromas, as served"""
    import json
    data, ids = {}, {}
    for g in groups:
        n = 1000 * ids.setdefault(g["char"], len(ids) + 1)
        first, *more = (n + int(x) for x in g["nums"])
        char = g["char"].capitalize() if first % 2 else g["char"]
        data[str(first)] = {"id": first, "name": "x", "loadScreenPath": f"/lol-game-data/assets/ASSETS/Characters/{char}/Skins/Base/{char}LoadScreen.jpg"}
        if more or first % 3:
            data[str(first)]["chromas"] = [{"id": x, "name": "y"} for x in more] if more or first % 2 else None
    cdn.put("http://raw.communitydragon.org/pbe/" + GD + "v1/skins.json", json.dumps(data).encode())


class Terminal:
    """Run in a terminal, with interrupts (Ctrl-C) in the middle of a method"""

    def __init__(self, g, case):
        self.g, self.mode, self.at, self.n, self.fired, self.found = g, case.get("tty", ""), case.get("at", 0), 0, 0, set()

    def __enter__(self):
        if self.mode:
            self.previous, self.stderr = signal.getsignal(signal.SIGINT), sys.stderr
            self.fds = os.openpty()
            sys.stderr = os.fdopen(self.fds[1], "w")
            for name in ("check", "check_iter"):
                if hasattr(self.g, name):
                    setattr(self.g, name, self.wrap(getattr(self.g, name)))
        return self

    def __exit__(self, *a):
        if self.mode:
            sys.stderr.close()
            os.close(self.fds[0])
            sys.stderr = self.stderr
            if self.mode == "twice":
                # the traceback keeps the method alive
                signal.signal(signal.SIGINT, self.previous)

    def wrap(self, fn):
        def wrapped(*args):
            r = fn(*args)
            if self.mode in ("once", "twice") and not self.fired and signal.getsignal(signal.SIGINT) != self.previous:
                self.n += 1
                if self.n > self.at:
                    self.found = {p for h, p in self.g.known.items() if D.ph(p) == h}
                    self.fired = 1
                    t = time.time()
                    signal.raise_signal(signal.SIGINT)
                    if self.mode == "twice" and time.time() - t < .2:
                        self.fired = 2
                        signal.raise_signal(signal.SIGINT)
            return r
        return wrapped


def run_with(case, env):
    from vlib import guard
    kind = case["kind"]
    other = "game" if kind == "lcu" else "lcu"
    known = list(case["known"])
    targets = case["targets"]
    archives = []
    scanned = case.get("grep", [])
    if case.get("hidden") and scanned:
        # contents found whatever the name for these forms
        f = scanned[0]
        forms = {m["form"] for m in f["mentions"]}
        if forms <= {"fe", "data", "assets", "template", "map", "text"} or (forms == {"bin"} and f["data"][:4] == b"PROP"):
            known.remove(f["path"])
    if scanned or case["cli"]:
        entries = [{"h": D.ph(f["path"]), "kind": f["how"] if case["version"][0] == 3 or f["how"] != "zstd" else "gz", "data": f["data"]} for f in scanned]
        have = {e["h"] for e in entries}
        entries += [{"h": h, "kind": "raw", "data": b"x"} for h in dict.fromkeys(D.ph(p) for p in targets + known) if h not in have]
        archives = [{"name": "a" + D.KIND_EXT[kind], "version": case.get("version", [3, 1]), "entries": entries}]
    others = [o for m in case.get("ms", ()) for o in m["a"]["others"]]
    with guard.disabled():
        d = D.Guessing(env, {kind: [[D.ph(p), p] for p in known], other: [[D.ph(p), p] for p in dict.fromkeys(others)]}, archives)
    env.op_timeout = 100
    ev, term, v = [], None, None
    if case["cli"]:
        with guard.disabled():
            os.makedirs(env.path("st", "channels", "public"))
        names = "grep" if scanned else ",".join(CLI[m["m"]] for m in case["ms"])
        st, out, err = env.cli(["hashes-guess", "-s", env.path("st"), "-m", names, os.path.join(d.dir, archives[0]["name"])])
        found = {p for _, p in d.file_pairs(kind)}
    else:
        st, g = env.call(d.cls(kind), {D.ph(t) for t in targets})
        if st == "ok":
            if scanned:
                def fn():
                    if case.get("files") and kind == "game":
                        # contents in plain files
                        for i, f in enumerate(scanned):
                            with guard.disabled(), open(env.path(f"plain{i}"), "wb") as out:
                                out.write(f["data"])
                            g.grep_file(path=env.path(f"plain{i}")) if i % 2 == 0 else g.grep_file(data=f["data"])
                        return
                    for w in d.wads():
                        w.guess_extensions()
                        g.grep_wad(w)
            else:
                m = case["ms"][0]
                for m0 in case["ms"][:-1]:
                    m = case["ms"][-1]
                    before = sorted(g.known.values())
                    st, v, out = d.printing(lambda: getattr(g, CALLS[m0["m"]])(*([m0["a"]["names"]] if m0["m"] == "names" else []), **m0["kw"]))   # noqa
                    now = set(g.known.values())
                    ev.append({"op": "guess", "interrupts": 0, "kept": True, "handler": True, "status": "ok" if st == "ok" else "raised", "known": before, "ms": [{"m": m0["m"], "a": m0["a"]}],
                               "targets": [{"t": t, "found": t in now} for t in targets if t not in before]})
                    known = sorted(now)
                targets = [t for t in targets if t not in known]
                fn = lambda: getattr(g, CALLS[m["m"]])(*([m["a"]["names"]] if m["m"] == "names" else []), **m["kw"])   # noqa
            with Terminal(g, case) as term:
                st, v, out = d.printing(fn)
        found = {p for h, p in g.known.items() if D.ph(p) == h} if st == "ok" or v == "KeyboardInterrupt" else set()
    t = [{"t": t, "found": t in found} for t in targets]
    e = {"status": "ok" if st == "ok" else "interrupted" if v == "KeyboardInterrupt" else "raised", "known": known, "targets": t, "interrupts": 0, "kept": True, "handler": True}
    if term and term.fired:
        e.update(interrupts=term.fired, kept=term.found <= found, handler=st != "ok" or signal.getsignal(signal.SIGINT) == term.previous)
    if scanned:
        e.update(op="grep", kind=kind, files=[{"path": f["path"], "mentions": f["mentions"]} for f in scanned])
    else:
        e.update(op="guess", ms=[{"m": m["m"], "a": m["a"]} for m in (case["ms"] if case["cli"] else case["ms"][-1:])])
    with guard.disabled():
        d.cleanup()
    return {"ev": ev + [e]}
