"""C01: versions are totally ordered, numerically and consistently"""
import itertools

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): design check of the version order, trace validation of the operators of real version objects"
NOTE = ("TLC shows that the specified order is a numeric total order (all triples over a boundary alphabet), then checks every "
        "comparison, hash, text and sort result of real version objects against it. Bounded: components from boundary values "
        "and random ones up to 20 digits, 1 to 5 components.")
RULE = ("versions of every class from text and tuples; all pairs over boundary numerals, random pairs biased to shared prefixes, "
        "random lists to sort; non-trivial: at least one comparison or sort of successfully built values")
ASSUMPTIONS = ["canonical numerals (no leading zeros, no signs)"]


def designs(g):
    yield "MC_Versions", "MC_Versions.cfg", {}


def digits(n):
    return [int(c) for c in str(n)]


def cases(g):
    rng = g.rng
    nums = [0, 1, 2, 9, 10, 11, 99, 100, 101, 255, 256]
    big = nums + [65535, 2**31 - 1, 2**31, 2**32, 2**63, 10**19, 10**20]
    # exhaustive pairs
    two = [list(p) for k in (1, 2) for p in itertools.product([0, 1, 9, 10, 11, 100], repeat=k)]
    pairs = [(("generic", f, u), ("generic", f2, v)) for u in two for v in two for f, f2 in [rng.choice([("text", "text"), ("text", "tuple"), ("tuple", "text"), ("tuple", "tuple")])]]
    pv = [list(p) for p in itertools.product([1, 2, 9, 10, 14], [1, 2, 9, 10, 11, 20, 24])]
    pairs += [(("patch", rng.choice(["text", "tuple"]), u), ("patch", rng.choice(["text", "tuple"]), v)) for u in pv for v in pv]
    n = g.pick(6000, 60000)

    def rnd(cls):
        k = {"patch": rng.choice([2, 2, 3, 4]), "rads": 4, "generic": rng.randint(1, 5)}[cls]
        alpha = rng.choice([nums, big, range(0, 30)])
        return [rng.choice(alpha) if rng.random() < .8 else rng.randrange(10 ** rng.randint(1, 20)) for _ in range(k)]

    for _ in range(n):
        ca, cb = rng.choice(["patch", "rads", "generic"]), None
        cb = ca if rng.random() < .8 else rng.choice(["patch", "rads", "generic"])
        u, v = rnd(ca), rnd(cb)
        if rng.random() < .7 and ca == cb:
            v = list(u)
            r = rng.random()
            if r < .6:
                i = rng.randrange(len(v))
                v[i] = max(0, v[i] + rng.choice([-1, 1, 9, -9, 90, 10 * v[i], -(v[i] // 10)]))
            elif r < .8 and ca == "generic":
                v = v[:rng.randint(1, len(v))]
        pairs.append(((ca, rng.choice(["text", "tuple"]), u), (cb, rng.choice(["text", "tuple"]), v)))
    for i in range(0, len(pairs), 200):
        yield {"kind": "pairs", "pairs": [[list(a), list(b)] for a, b in pairs[i:i + 200]]}
    # construction
    for i in range(g.pick(4, 20)):
        items = []
        for _ in range(200):
            cls = rng.choice(["patch", "rads", "generic"])
            v = rnd(cls) if rng.random() < .7 else rnd("generic")
            items.append([cls, rng.choice(["text", "tuple"]), v])
        yield {"kind": "make", "items": items}
    yield {"kind": "main", "others": ["main"] + [".".join(map(str, v)) for v in pv] + [[1, 2], [9, 10]]}
    # sorting
    for i in range(g.pick(40, 400)):
        items = []
        small = rng.random() < .5
        for _ in range(rng.randint(2, 12)):
            v = [rng.choice([0, 1, 2]) for _ in range(2)] + [rng.choice([0, 1, 9, 10, 11, 99, 100, 255]) for _ in range(2)] if small else rnd("rads")
            items.append([rng.randrange(3), v])
        if rng.random() < .4:
            vs = [v for _, v in items[:3]] + [items[0][1][:3] + [items[0][1][3] + 1]]
            kinds = rng.sample(["patch", "element", "sv", "pv", "s", "p"], 3)
            yield {"kind": "same", "items": [[rng.choice(kinds), rng.randrange(2), rng.choice(vs)] for _ in range(14)]}
        yield {"kind": "sort", "what": rng.choice(["solution", "project", "patch", "solutions", "projects"]), "items": items}


def nontrivial(case, trace):
    return any(e["op"] in ("cmp", "sort", "main", "same") or e.get("status") == "ok" for e in trace["ev"])


def _build(spec):
    from cdtb.storage import BaseVersion, PatchVersion
    from cdtb.rads import RadsVersion
    cls, form, v = spec
    k = {"patch": PatchVersion, "rads": RadsVersion, "generic": BaseVersion}[cls]
    return k(".".join(map(str, v)) if form == "text" else tuple(v))


def _bool(st, v):
    if st != "ok":
        return "raised"
    return {True: "T", False: "F"}.get(v, "other")


def run(case, env):
    import operator
    ev = []
    if case["kind"] == "pairs":
        for a, b in case["pairs"]:
            x, y = _build(a), _build(b)
            r = {}
            for name in ("lt", "le", "gt", "ge", "eq", "ne"):
                r[name] = _bool(*env.call(getattr(operator, name), x, y))
            ev.append({"op": "cmp", "a": {"cls": a[0], "v": [digits(n) for n in a[2]]}, "b": {"cls": b[0], "v": [digits(n) for n in b[2]]},
                       "r": r, "hasheq": hash(x) == hash(y), "texteq": str(x) == str(y)})
    elif case["kind"] == "make":
        for spec in case["items"]:
            st, x = env.call(_build, spec)
            e = {"op": "make", "cls": spec[0], "v": [digits(n) for n in spec[2]], "status": st}
            if st == "ok":
                t = x.t
                e.update(s=str(x), t=[digits(n) for n in t], eqtext=x == str(x) and str(x) == x, eqtuple=x == t and not (x != t),
                         hashtext=hash(x) == hash(str(x)) and {str(x): 1}.get(x) == 1)
            ev.append(e)
    elif case["kind"] == "main":
        from cdtb.storage import PatchVersion
        m = PatchVersion("main")
        for o in case["others"]:
            vals = [tuple(o)] if isinstance(o, list) else [o, PatchVersion(o)]
            for v in vals:
                ev.append({"op": "main", "other": str(o), "eq": _bool(*env.call(operator.eq, m, v)), "ne": _bool(*env.call(operator.ne, m, v)), "s": str(m)})
    elif case["kind"] == "same":
        ev.append(_same(case, env))
    else:
        ev.append(_sort(case, env))
    return {"ev": ev}


def _same(case, env):
    """Equality of what is designated by a kind, a name and a version"""
    from cdtb.storage import Storage, PatchElement, PatchVersion
    from cdtb.rads import RadsStorage, RadsSolution, RadsProject, RadsSolutionVersion, RadsProjectVersion, RadsVersion

    def make(what, n, v):
        storage = RadsStorage(env.dir)
        if what == "patch":
            class S(Storage):
                def patch_elements(self, stored=False):
                    yield PatchElement(["game", "client"][n], PatchVersion(tuple(v)))
            return next(S(env.dir, "http://x/").patches())
        if what == "element":
            return PatchElement(["game", "client"][n], PatchVersion(tuple(v)))
        o = (RadsSolution if what[0] == "s" else RadsProject)(storage, f"n{n}")
        return o if len(what) == 1 else (RadsSolutionVersion if what[0] == "s" else RadsProjectVersion)(o, RadsVersion(tuple(v)))
    objs = [make(*x) for x in case["items"]]
    rel = []
    for i, a in enumerate(objs):
        row = []
        for b in objs:
            eq, ne = a == b, a != b
            row.append("same" if eq and not ne and hash(a) == hash(b) else "different" if ne and not eq else "unclear")
        rel.append(row)
    # something else altogether
    versions = [k(tuple(v)) for (_, _, v), k in zip(case["items"], (PatchVersion, RadsVersion))]
    foreign = []
    for a in objs + versions:
        for b in [None, 5, 0, [], "", "game", b"1.2", 1.5, object, {"version": "1.2"}]:
            st, r = env.call(lambda: (a == b, b == a, a != b, b != a))   # noqa
            foreign.append("different" if st == "ok" and [bool(x) for x in r] == [False, False, True, True] else "unclear")
    items = [{"what": w, "name": n, "v": [digits(x) for x in v]} for w, n, v in case["items"]]
    return {"op": "same", "foreign": sorted(set(foreign)), "items": items, "rel": rel, "count": len(set(objs))}


def _sort(case, env):
    from cdtb.storage import Storage, PatchElement, PatchVersion
    from cdtb.rads import RadsStorage, RadsSolution, RadsProject, RadsSolutionVersion, RadsProjectVersion, RadsVersion
    what, items = case["what"], case["items"]
    storage = RadsStorage(env.dir)
    if what == "patch":
        class S(Storage):
            def patch_elements(self, stored=False):
                for _, v in items:
                    yield PatchElement("game", PatchVersion(tuple(v)))
        objs = list(S(env.dir, "http://x/").patches())
        # successive equal patches are grouped by patches(); the input is what it gave
        key = lambda p: {"name": 0, "v": [digits(n) for n in p.version.t]}
    elif what in ("solution", "project"):
        k, kv = (RadsSolution, RadsSolutionVersion) if what == "solution" else (RadsProject, RadsProjectVersion)
        objs = [kv(k(storage, f"n{n}"), RadsVersion(tuple(v))) for n, v in items]
        key = lambda p: {"name": int(getattr(p, what).name[1:]), "v": [digits(n) for n in p.version.t]}
    else:
        k = RadsSolution if what == "solutions" else RadsProject
        objs = [k(storage, f"n{n}") for n, _ in items]
        key = lambda p: {"name": int(p.name[1:]), "v": [[0]]}
    before = [key(o) for o in objs]
    return {"op": "sort", "items": before, "out": [key(o) for o in sorted(objs)]}
