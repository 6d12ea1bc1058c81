"""C02: patch history lists every patch exactly once, newest first"""
from vlib import histcases

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): listing algorithm checked against the declarative history for all small histories; generated histories replayed on the real storages"
NOTE = ("TLC checks the merge and grouping of listings against the declarative specification for all histories of up to 4 (5) releases and 3 "
        "versions; histories it generates are written to real patcher storages (cached and uncached versions) and RADS storages, and every "
        "listing is validated. Trusted: the fake CDN; the patch versions of RADS game solutions come from their cache.")
RULE = ("histories generated by TLC (releases missing elements, elements at different versions, subpatches) with concrete versions around digit-count "
        "boundaries, on live and pbe patcher storages and RADS storages, listed completely or partially, stored or with an update check; "
        "non-trivial: a history with at least two listed elements")
ASSUMPTIONS = ["versions of an element never decrease over time"]
TRACE = "Trace_History"


def designs(g):
    yield "MC_History", "MC_History_thorough.cfg" if g.thorough else "MC_History.cfg", {"workers": 4, "timeout": 600}


def cases(g, lookups=False):
    rng = g.rng
    scen = g.scenarios("MC_History", "MC_History_gen.cfg", simulate=g.pick(700, 6000), depth=30)
    for s in scen[:g.pick(500, 5000)]:
        yield histcases.patcher_case(rng, s, lookups)
    for _ in range(g.pick(250, 2500)):
        yield histcases.rads_case(rng, lookups)


def nontrivial(case, trace):
    return any(sum(len(r) for r in e.get("h", [])) >= 2 for e in trace["ev"])


def run(case, env):
    return histcases.run(case, env)
