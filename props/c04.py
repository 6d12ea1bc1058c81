"""C04: release tracking records each advertised update exactly once"""

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): update checks with crash points and clock jumps model-checked; generated behaviours replayed on the real storage with faults, traces validated"
NOTE = ("TLC explores update checks on two patchlines, with a failure between any two written files and a clock going backwards. Behaviours it "
        "generates are replayed on the real storage: fake update servers, controlled clock, request faults of several kinds, and failures or kills "
        "at file-system operations; the recorded releases and their listing are validated after each check.")
RULE = ("sequences of advertised pairs, clock jumps and update checks (API, listings, command line) on two patchlines, with the client configuration read from the default URL, another one or a local file, faults at requests (refused, "
        "status, cut, malformed, missing entries) and at each file-system operation (error, interrupt, kill); non-trivial: at least two recorded releases")
ASSUMPTIONS = ["advertised versions of elements never decrease"]


def designs(g):
    yield "MC_Releases", "MC_Releases_thorough.cfg" if g.thorough else "MC_Releases.cfg", {"workers": 4}


def cases(g):
    rng = g.rng
    for s in g.scenarios("MC_Releases", "MC_Releases_gen.cfg", simulate=g.pick(500, 5000), depth=20)[:g.pick(400, 5000)]:
        ops = s["ops"]
        for o in ops:
            if o["o"] == "clock":
                o["t"] = 1700000000 + {1: 0, 2: 1, 3: 5000}[o["t"]]
            if o["o"] == "update":
                o["api"] = rng.choice(["fetch", "fetch", "elements", "find", "cli"])
                o["fresh"] = rng.random() < .3
                if o["fault"] == "request":
                    o["how"] = rng.choice(["refuse", "status", "cut", "json", "missing", "empty", "nopair"])
                    o["k"] = rng.choice([0, 1])
                elif o["fault"] != "none":
                    o["kind"] = rng.choice(["error", "error", "interrupt", "kill"])
                    o["when"] = rng.choice(["before", "after", "half"])
                    o["at"] = rng.randint(1, 4) if o["fault"] == "release" else rng.randint(4, 10)
                    o["lazy"] = rng.random() < .4
        yield {"ops": ops, "salt": rng.randrange(100), "initial": rng.random() < .3, "kind": "patcher", "conf": rng.choice(["default", "default", "file", "url"])}


def nontrivial(case, trace):
    return sum(len(r) for r in (trace["ev"][-1].get("rels", {}) if trace["ev"] else {}).values()) >= 2


def run(case, env):
    import json
    import random
    from vlib import guard
    from vlib.histdrv import PatcherHistory, UPDATE_HOSTS
    from vlib.faults import Counter, FsFaults, in_child
    mans = {f"{x}{i}": [9, 9] for x in "cg" for i in (1, 2, 5, 6)}
    c = dict(case, manifests=mans, now=1700000000, cached=False)
    if case["initial"]:
        c["initial"] = {"live": [{"client": "c1"}, {"client": "c1", "game": "g1"}]}
    else:
        c["initial"] = {}
    h = PatcherHistory(c, env)
    shift = {"live": 0, "pbe": 4}
    adv = {}

    def rels():
        ret, bad = {}, []
        for line in ("live", "pbe"):
            ret[line], b = h.releases(line)
            bad += b
        return ret, bad
    start, _ = rels()
    ev = []
    with h.cdn, h.clock:
        for o in case["ops"]:
            if o["o"] == "advertise":
                p = [f"c{o['p'][0] + shift[o['line']]}", f"g{o['p'][1] + shift[o['line']]}"]
                adv[o["line"]] = p
                h.advertise(o["line"], *p)
                continue
            if o["o"] == "clock":
                h.clock.now = o["t"]
                continue
            line = o["line"]
            pair = adv[line]
            fault = o["fault"]
            h.cdn.hook = None
            s = h.storage(line, fresh=o["fresh"])
            if fault == "request":
                how, k = o["how"], o["k"]
                if how == "nopair":
                    # the servers know nothing about the patchline
                    h.advertise(line, None if k == 0 else pair[0], None if k else pair[1])
                else:
                    seen = []

                    def hook(url, method, n):
                        if any(x in url for x in UPDATE_HOSTS):
                            seen.append(url)
                            if len(seen) == k + 1:
                                if how in ("json", "missing", "empty"):
                                    body = {"json": b"{\"releases\": [", "missing": b"{}", "empty": b""}[how]

                                    def swap():
                                        old = h.cdn.files[url]
                                        h.cdn.files[url] = body
                                        restore.append((url, old))
                                    swap()
                                    return None
                                return {"refuse": "refuse", "status": ("status", 500), "cut": ("cut", 30, "error")}[how]
                        return None
                    restore = []
                    h.cdn.hook = hook

            def action():
                if o["api"] == "fetch":
                    s.fetch_latest_update()
                elif o["api"] == "elements":
                    list(s.patch_elements(stored=False))
                elif o["api"] == "find":
                    s.patch(None)
                else:
                    st, out, err = env.cli(["versions", "-s", h.storage_arg(), "--patchline", line, "-a", "patch"])
                    if st != "ok":
                        raise RuntimeError(st)
            fired = fault == "request"
            if fault in ("release", "mark"):
                counter = Counter(o["at"], o["kind"], o["when"], lazy=o["lazy"], root=h.root)
                if o["kind"] == "kill":
                    with FsFaults(counter):
                        rc = in_child(action)
                    st, fired = ("ok" if rc == 0 else "raised"), rc == 77
                    h.storages.clear()
                else:
                    with FsFaults(counter):
                        st, _ = env.call(action)
                    fired = counter.fired is not None
            else:
                st, _ = env.call(action)
            h.cdn.hook = None
            if fault == "request":
                if how == "nopair":
                    h.advertise(line, *pair)
                else:
                    for url, old in restore:
                        h.cdn.files[url] = old
            now, bad = rels()
            st2, listing = env.call(lambda: [str(r.version) for r in h.storage(line, fresh=True).iter_releases()])
            ev.append({"op": "update", "line": line, "adv": pair if not (fault == "request" and how == "nopair") else [],
                       "fault": "none" if not fired else fault, "status": st, "rels": now, "incomplete": bad,
                       "listing": listing if st2 == "ok" else ["raised"]})
    return {"rels": start, "ev": ev}
