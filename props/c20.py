"""C20: common path reduction is exact and maximal"""

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): guarantees of the reduction checked on the recursive algorithm for all lists over 4 (6) paths; all lists over 5 (6) paths and random deeper ones replayed"
NOTE = ("Guarantees (exact cover, nothing else, maximality) are shown by TLC to determine the result; the recursive algorithm is checked against them for all "
        "small lists. All the generated lists, with shuffled order and shared name prefixes, and random deep ones are reduced by the real code.")
RULE = "every placement of 5 (6) paths in the lists, then random trees up to depth 6; non-trivial: at least two paths to reduce"
ASSUMPTIONS = ["the first list is contained in the second, excluded paths are not in the first one", "no path of the lists is a directory of another one"]

U = ["a/x", "a/b/x", "c", "a/b/y", "d/x", "d/e/f"]


def designs(g):
    yield "MC_Reduce", "MC_Reduce_thorough.cfg" if g.thorough else "MC_Reduce.cfg", {"workers": 4}


def cases(g):
    rng = g.rng
    ops = []
    for s in g.scenarios("MC_Reduce", "MC_Reduce_gen6.cfg" if g.thorough else "MC_Reduce_gen.cfg"):
        p = s["place"]
        names = rng.choice([None, {"a": "aa", "b": "a", "d": "a.b", "e": "x"}, {"x": "a", "y": "aa"}])
        u = ["/".join((names or {}).get(q, q) for q in t.split("/")) for t in U]
        if len(set(u)) < len(u) or any(a != b and b.startswith(a + "/") for a in u for b in u):
            u = U
        ops.append([[u[i] for i, x in enumerate(p) if x == "12"], [u[i] for i, x in enumerate(p) if x in ("2", "12", "E2")],
                    [u[i] for i, x in enumerate(p) if x in ("E", "E2")]])
    for _ in range(g.pick(1500, 12000)):
        u = set()
        names = ["a", "b", "aa", "a.b", "x", "é", "A"]
        for _ in range(rng.choice([1, 2, 4, 8, 15, 25])):
            p = "/".join(rng.choice(names[:rng.randint(1, 7)]) for _ in range(rng.randint(1, 6)))
            if not any(p == q or p.startswith(q + "/") or q.startswith(p + "/") for q in u):
                u.add(p)
        u = sorted(u)
        # most paths unchanged, by directory
        w = {p.split("/")[0]: rng.choice([.5, .95, 1, 0.8]) for p in u}
        p1, p2, ex = [], [], []
        for p in u:
            if rng.random() < w[p.split("/")[0]]:
                p1.append(p), p2.append(p)
            else:
                x = rng.choice(["none", "2", "E", "E2"])
                if "2" in x:
                    p2.append(p)
                if "E" in x:
                    ex.append(p)
        ops.append([p1, p2, ex])
    for o in ops:
        for x in o:
            rng.shuffle(x)
    for i in range(0, len(ops), 40):
        yield {"ops": ops[i:i + 40]}


def nontrivial(case, trace):
    return any(len(o[0]) > 1 for o in case["ops"])


def run(case, env):
    from cdtb.export import reduce_common_paths
    ev = []
    for k, (p1, p2, ex) in enumerate(case["ops"]):
        # used with sets and lists
        conv = set if k % 2 else list
        st, r = env.call(reduce_common_paths, conv(p1), conv(p2), conv(ex))
        ok = st == "ok" and all(isinstance(x, str) for x in r)
        ev.append({"op": "reduce", "status": "ok" if ok else st, "p1": [p.split("/") for p in p1], "p2": [p.split("/") for p in p2],
                   "ex": [p.split("/") for p in ex], "out": [x.split("/") if x else [] for x in r] if ok else []})
    return {"ev": ev}
