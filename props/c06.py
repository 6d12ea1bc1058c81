"""C06: language selection picks exactly the requested files"""

from . import c05

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): specification of file selection and needed bundles, trace validation of queries and downloads"
NOTE = ("The specification computes the selected files and the bundles they need; TLC compares with the reported paths, bundle ids, bundle "
        "requests and resulting tree of the real code for generated flag assignments and selectors. The design model of the storage is "
        "explored exhaustively (see C05).")
RULE = ("random worlds with random flags; for each: all reported paths and bundle ids for every kind of selector, a download with a selector, "
        "damage, then again; non-trivial: the selection of some operation is neither empty nor everything")
ASSUMPTIONS = c05.ASSUMPTIONS + ["locale flags are the five-character flags with an underscore"]
TRACE = "Trace_C05"
designs = c05.designs
run = c05.run

SELECTORS = [True, False, "de_DE", "de_de", "EN_US", "fr_FR", "windows", "xx_XX", ["fr_FR"], ["de_de", "EN_US"], [], ["ko_KR", "xx_XX", "fr_fr"], ["x_y", "de_DE"]]

# all languages; flags which look like some, or do not
LANGS = "ar_AE ar_EG cs_CZ de_DE el_GR en_AU en_GB en_PH en_PL en_SG en_US es_AR es_ES es_MX fr_FR hu_HU id_ID it_IT ja_JP ko_KR ms_MY pl_PL pt_BR ro_RO ru_RU th_TH tr_TR vi_VN vn_VN zh_CN zh_MY zh_TW"
MORE = LANGS.split() + ["windows", "macos", "x_y", "a_bcd", "abcd_", "_abcd", "abcde", "ab_cde", "zh_Hans", "de", "EN_gb", "a_b_c"]


def case(rng, s):
    return rng.choice([s, s.lower(), s.upper(), s.swapcase()])


def cases(g):
    from vlib import patcherdrv as drv
    rng = g.rng
    for n in range(g.pick(300, 3000)):
        world = drv.gen_world(rng, nrel=rng.choice([1, 1, 2]), max_files=8)
        flags = drv.FLAGS if n % 3 else rng.sample(MORE, rng.choice([3, 6, 12]))
        for rel in world["releases"]:
            for e in rel["elems"].values():
                for f in e["files"]:
                    r = rng.random()
                    f["flags"] = [] if r < .25 else rng.sample(flags, 1) if r < .7 else rng.sample(flags, rng.choice([2, 3]))
                e["flags"] = flags
        ri = rng.randrange(len(world["releases"]))
        e = rng.choice(sorted(world["releases"][ri]["elems"]))
        selectors = SELECTORS if flags is drv.FLAGS else [True, False] + [case(rng, x) for x in rng.sample(flags, 3)] + [
            [case(rng, x) for x in rng.sample(flags, k)] for k in (1, 2, 3)]
        q = lambda langs: {"o": "query", "r": ri, "e": e, "langs": langs, "sym": True}
        d = lambda langs: {"o": "download", "r": ri, "e": e, "langs": langs, "sym": rng.random() < .6, "via": rng.choice(["elem", "release", "whole", "patch", "cli"])}
        ops = [q(s) for s in rng.sample(selectors, 5)]
        ops.append(d(rng.choice(selectors)))
        ops += [q(s) for s in rng.sample(selectors, 3)]
        if rng.random() < .5:
            ops.append({"o": "rm", "t": rng.choice(["vis", "shared", "bundles"]), "k": rng.randrange(20)})
        ops.append(d(rng.choice(selectors)))
        ops += [q(s) for s in rng.sample(selectors, 2)]
        yield {"world": world, "ops": ops}


def nontrivial(case, trace):
    return any(e["op"] == "query" and e["paths"] and e["langs"]["kind"] != "all" for e in trace["ev"])
