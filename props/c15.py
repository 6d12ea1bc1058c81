"""C15: a full export leaves exactly the patch's files in the output"""
from vlib import exportcases as X

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): exports of patches specified (selection, conversion, cleaning) and checked on a model of the exported directories; worlds and histories replayed on the real exporter"
NOTE = ("Export.tla gives the files a patch exports from its archives; MC_Export checks cleaning, writing and linking for all small histories. Random and "
        "model-generated histories of exports, strays, removals and content changes are replayed on the real exporter and storage; every file is compared.")
RULE = "random patches (archives of all versions, plain files, all converted formats), exported over random or earlier content; non-trivial: several exports or strays"
ASSUMPTIONS = ["files present in several archives are identical", "no file is named like a directory of another one, once converted",
               "strays are files and links; a directory is never found where a file has to be written"]


def designs(g):
    yield "MC_Export", "MC_Export_thorough.cfg" if g.thorough else "MC_Export.cfg", {"workers": 8}


def cases(g):
    rng = g.rng
    for _ in range(g.pick(220, 2500)):
        case, vs, n = X.random_case(rng, {"invalid": 0})
        ops = []
        full = lambda v: X.export_op(v, links=rng.choice([None, None, False]))
        if rng.random() < .5:
            case["initial"] = [{"v": v, "how": rng.choice(["stray", "any"]), "n": rng.choice([1, 3])} for v in vs if rng.random() < .7]
        for k in range(rng.choice([1, 2, 3])):
            r = rng.random()
            i = rng.randrange(len(vs))
            if r < .25 and i:
                ops.append(X.export_op(vs[i], vs[i - 1], links=rng.choice([None, True, False])))
            if r < .5:
                ops.append({"o": "disturb", "v": vs[i], "how": "any", "n": rng.choice([1, 2, 5])})
            if r > .6 and n < len(case["releases"]):
                ops.append({"o": "record", "k": n})
                n += 1
                i = len(vs) - 1
            ops.append(full(vs[i]))
        case["ops"] = ops
        yield case


def nontrivial(case, trace):
    return len(case["ops"]) > 1 or bool(case.get("initial"))


run = X.run
