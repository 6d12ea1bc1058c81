"""C21: selection and place of exported files"""
from vlib import exportcases as X

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): selection, placement and conversion rules specified in Export.tla; real exports of generated patches are compared file by file with it"
NOTE = ("Export.tla states which files of a patch are exported, where, and with which companions, from the paths of archives and entries and the patch version. "
        "Patches made of archives of all versions and names around each rule are exported by the real exporter; paths and contents are compared by TLC.")
RULE = "patches around 14.4 and main, archives and entries named around each rule, all WAD versions; non-trivial: an archive has exported files and ignored ones"
ASSUMPTIONS = ["paths known in hash lists are lowercase", "no file is named like a directory of another one, once converted"]


def designs(g):
    yield "MC_Export", "MC_Export.cfg", {"workers": 8}


def cases(g):
    rng = g.rng
    for _ in range(g.pick(450, 8000)):
        yield X.rules_case(rng)
    for _ in range(g.pick(80, 1000)):
        case, vs, n = X.random_case(rng, {"invalid": 0, "nver": [1], "again": 0}, late=.7, main=.3)
        case["ops"] = [X.export_op(v) for v in vs]
        yield case


def nontrivial(case, trace):
    for e in trace["ev"]:
        n = sum(len(s.get("entries", ())) for s in case["releases"][0]["srcs"])
        if e["op"] == "export" and 0 < len(e["trees"].get(e["patch"], {})) < n:
            return True
    return False


run = X.run
