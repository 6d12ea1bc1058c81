"""C18: exports are repeatable; lazy exports only fill gaps"""
from vlib import exportcases as X

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): model of repeated, lazy and interrupted exports; its histories and random ones replayed on the real exporter"
NOTE = ("MC_Export has removals, overwrites and content changes between exports; after each replayed export all files have to be those Export.tla derives from "
        "the patch or, in lazy mode, exactly those found before for files whose outputs were all there.")
RULE = "repeated normal and lazy exports with removed, overwritten and added files in between; non-trivial: a directory is exported at least twice"
ASSUMPTIONS = ["in lazy mode, a file whose outputs are all present is left as it is, otherwise all its outputs are written"]


def designs(g):
    yield "MC_Export", "MC_Export_thorough.cfg" if g.thorough else "MC_Export.cfg", {"workers": 8}


def cases(g):
    rng = g.rng
    for s in X.sample(g, 100, 2000):
        for o in s["h"]:
            if o["o"] == "export":
                o["q"] = 0
                o["lazy"] = o["lazy"] or (not o["partial"] and rng.random() < .4)
        yield X.scenario_case(rng, s, {"invalid": 0})
    for _ in range(g.pick(260, 3000)):
        case, vs, n = X.random_case(rng, {"invalid": 0, "nver": [1, 1, 2], "again": .6})
        total, ops = len(case["releases"]), []
        if rng.random() < .3:
            case["initial"] = [{"v": vs[-1], "how": "any", "n": 2}]
        last = len(vs) - 1
        prev = vs[0] if last and rng.random() < .5 else None
        if prev:
            ops.append(X.export_op(prev))
        for k in range(rng.choice([2, 3, 4])):
            ops.append(X.export_op(vs[last], prev if rng.random() < .8 else None, lazy=k > 0 and rng.random() < .6, links=rng.choice([None, None, False])))
            if rng.random() < .8:
                ops.append({"o": "disturb", "v": vs[last], "how": rng.choice(["remove", "remove", "overwrite", "any"]), "n": rng.choice([1, 2, 5])})
            if rng.random() < .3 and n < total:
                ops.append({"o": "record", "k": n})
                n += 1
        ops.append(X.export_op(vs[last], prev, lazy=rng.random() < .5))
        case["ops"] = ops
        yield case


def nontrivial(case, trace):
    n = [e["patch"] for e in trace["ev"] if e["op"] == "export"]
    return len(n) > len(set(n))


run = X.run
