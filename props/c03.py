"""C03: a component or version selects exactly what it names"""
from vlib import histcases

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): lookups specified on histories (checked against the listing algorithm), component grammar in TLA+; lookups replayed on the real storages"
NOTE = ("The specification gives the answer of every lookup and parses the component strings; real storages built from TLC's histories are queried through "
        "patch(), patch_element(), parse_storage_component() and the files and versions commands, and every answer is validated.")
RULE = ("histories generated by TLC, with lookups of present, absent, prefix-like and longer versions, all documented component forms and near-misses, "
        "through API and command line, stored or with an update check; non-trivial: a history with at least two listed elements")
ASSUMPTIONS = ["versions of an element never decrease over time"]
TRACE = "Trace_History"


def designs(g):
    yield "MC_History", "MC_History_thorough.cfg" if g.thorough else "MC_History.cfg", {"workers": 4, "timeout": 600}


def cases(g, lookups=True):
    rng = g.rng
    scen = g.scenarios("MC_History", "MC_History_gen.cfg", simulate=g.pick(700, 6000), depth=30)
    for s in scen[:g.pick(500, 5000)]:
        yield histcases.patcher_case(rng, s, lookups)
    for _ in range(g.pick(250, 2500)):
        yield histcases.rads_case(rng, lookups)


def nontrivial(case, trace):
    return any(sum(len(r) for r in e.get("h", [])) >= 2 for e in trace["ev"])


def run(case, env):
    return histcases.run(case, env)
