"""C16: exporting with links to the previous patch is equivalent to a full export"""
from vlib import exportcases as X

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): model of exported directories linked to each other, exhaustively checked; its histories and random ones are replayed on the real exporter"
NOTE = ("MC_Export models chains of exports (links, cleaning, interrupted exports, content changes, removals, strays): the visible files of a patch are always "
        "its own. TLC checks it on all histories of 2 patches and 4 files, and its simulated histories drive the real exporter on real archives; the resolved "
        "view, the changed files and the other directories are compared with Export.tla after each export.")
RULE = "histories simulated from MC_Export and random chains of patches; non-trivial: at least one export with links to a complete previous patch"
ASSUMPTIONS = ["files present in several archives are identical", "no file is named like a directory of another one, once converted",
               "both patches convert the same files the same way (formats do not depend on the version between linked patches)",
               "the previous patch is completely exported: the view of its directory is the one of a full export"]


def designs(g):
    yield "MC_Export", "MC_Export_thorough.cfg" if g.thorough else "MC_Export.cfg", {"workers": 8}


def links_case(rng):
    case, vs, n = X.random_case(rng, {"invalid": 0, "nver": [2, 3, 3], "again": .5}, main=0)
    total = len(case["releases"])
    ops = []
    chain = lambda: [X.export_op(v, vs[i - 1] if i and rng.random() < .9 else None) for i, v in enumerate(vs)]
    ops += chain()
    for _ in range(rng.choice([0, 1, 2, 4])):
        r = rng.random()
        i = rng.randrange(len(vs))
        if r < .3 and n < total:
            ops.append({"o": "record", "k": n})
            n += 1
        elif r < .5:
            ops.append({"o": "disturb", "v": vs[i], "how": rng.choice(["remove", "any"]), "n": rng.choice([1, 2])})
        j = max(0, i - rng.choice([1, 1, 2]))
        ops.append(X.export_op(vs[i], vs[j] if j < i and rng.random() < .8 else None, lazy=rng.random() < .1))
    if rng.random() < .5:
        ops += chain()
    case["ops"] = ops
    return case


def cases(g):
    rng = g.rng
    for s in X.sample(g, 220, 5000):
        yield X.scenario_case(rng, s, {"invalid": 0})
    for _ in range(g.pick(180, 2500)):
        yield links_case(rng)


def nontrivial(case, trace):
    return any(e.get("mode") == "links" and e["status"] == "ok" for e in trace["ev"])


run = X.run
