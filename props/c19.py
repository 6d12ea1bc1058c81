"""C19: a file that cannot be converted never harms the export"""
from vlib import exportcases as X

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): model of exports interrupted at any file; real exports run on invalid data, and with each file operation failing in turn, validated against Export.tla"
NOTE = ("Patches hold truncated, corrupted and mislabelled images, textures, bin files, meshes, string tables, atlases and skin lists, and names too long for the "
        "file system. Exports run to the end, or with a file operation failing (error or interrupt; before, in the middle of, or after it): the files left are "
        "complete, and exporting again gives the files of Export.tla.")
RULE = "exports of patches with invalid contents, with injected failures then exported again; non-trivial: an invalid content is exported or a failure happened"
ASSUMPTIONS = ["failures are OSError or KeyboardInterrupt raised by a file operation below the exported directories", "kills of the process are not injected in exports"]


def designs(g):
    yield "MC_Export", "MC_Export_thorough.cfg" if g.thorough else "MC_Export.cfg", {"workers": 8}


def fault(rng):
    return {"at": rng.random(), "kind": rng.choice(["error", "interrupt"]), "when": rng.choice(["before", "half", "half", "after"]), "sticky": rng.random() < .3}


def cases(g):
    rng = g.rng
    for s in X.sample(g, 60, 1500):
        yield X.scenario_case(rng, s, {"invalid": .2, "long": .35})
    for k in range(g.pick(300, 4500)):
        faulty = rng.random() < .5
        case, vs, n = X.random_case(rng, {"invalid": rng.choice([.2, .5, .9]), "nver": [1, 1, 2], "again": .5, "long": rng.choice([0, 0, .05, .3]), "unreadable": rng.choice([0, .1, .4])})
        total, ops = len(case["releases"]), []
        last = len(vs) - 1
        prev = vs[0] if last and rng.random() < .7 else None
        links = rng.choice([None, None, False])
        if prev:
            ops.append(X.export_op(prev, fault=fault(rng) if faulty and rng.random() < .2 else None))
        for k in range(rng.choice([1, 2, 3])):
            ops.append(X.export_op(vs[last], prev if rng.random() < .7 else None, links=links, lazy=rng.random() < .1, fault=fault(rng) if faulty else None))
            if rng.random() < .3 and n < total:
                ops.append({"o": "record", "k": n})
                n += 1
            if rng.random() < .2:
                ops.append({"o": "disturb", "v": vs[last], "how": rng.choice(["remove", "overwrite", "any"]), "n": rng.choice([1, 3])})
        if prev and any(o.get("fault") for o in ops):
            ops.append(X.export_op(prev))
        ops.append(X.export_op(vs[last], prev, links=links))
        case["ops"] = ops
        yield case


def nontrivial(case, trace):
    return any(e.get("faulted") for e in trace["ev"]) or any(not c["tok"]["ok"] for c in case["contents"].values())


run = X.run
