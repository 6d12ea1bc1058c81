"""C17: index files describe the export exactly"""
from vlib import exportcases as X

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): Export.tla derives the listed paths and unknown hashes from the archives; histories of exports of the real exporter are validated against it"
NOTE = ("files.exported.txt, files.unknown.txt and files.links.txt are read back after each export (full, linked, lazy, over older lists) and compared with the "
        "paths and hashes Export.tla derives from the archives of the patch, and with the links really there; the unknown list is reloaded with HashGuesser.")
RULE = "histories of exports of random patches with many unknown entries; non-trivial: unknown entries or links are listed"
ASSUMPTIONS = ["paths are ASCII", "no file is named like a directory of another one, once converted"]


def designs(g):
    yield "MC_Export", "MC_Export.cfg", {"workers": 8}


def cases(g):
    rng = g.rng
    for _ in range(g.pick(320, 4000)):
        case, vs, n = X.random_case(rng, {"invalid": rng.choice([0, 0, .3]), "nver": [1, 2, 2, 3], "unknown": rng.choice([.2, .6, 1])})
        ops = []
        if rng.random() < .4:
            case["initial"] = [{"v": v, "how": rng.choice(["stray", "any"]), "n": 2} for v in vs if rng.random() < .7]
        for i, v in enumerate(vs):
            ops.append(X.export_op(v, vs[i - 1] if i and rng.random() < .8 else None, links=rng.choice([None, None, None, False])))
        for _ in range(rng.choice([0, 1, 2])):
            if rng.random() < .4 and n < len(case["releases"]):
                ops.append({"o": "record", "k": n})
                n += 1
            i = rng.randrange(len(vs))
            ops.append(X.export_op(vs[i], vs[i - 1] if i and rng.random() < .6 else None, links=rng.choice([None, None, False]), lazy=rng.random() < .2))
        case["ops"] = ops
        # lists kept from earlier runs
        case["oldlists"] = [[v, name] for v in vs for name in ("exported", "unknown", "links") if rng.random() < .2]
        yield case


def nontrivial(case, trace):
    return any(e["op"] == "export" and (e["cdragon"]["lists"].get("unknown", {}).get("lines") or e["cdragon"]["lists"].get("links")) for e in trace["ev"])


run = X.run
