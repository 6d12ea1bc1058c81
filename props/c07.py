"""C07: no failure or crash leaves a truncated file that is later trusted"""
import hashlib
import json
import os
import random
import shutil
import threading

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): exhaustive model of writes, failures and kills of a download; every file operation and request of real operations stopped in turn, trees validated against the specification"
NOTE = ("TLC explores downloads and extractions (bundles, shared files, links or copies, any initial storage) with failures and kills at any step, and checks "
        "that only complete files are left and that running again completes. Real downloads, extractions, version lookups and update checks of both "
        "storages are stopped at file operations and requests (errors, interrupts, kills of the process, corrupted chunks), then run again: trees are "
        "compared with the one of an undisturbed run by Atomic.tla. Quick samples the points of each operation, thorough takes many more of them.")
RULE = ("operations (patcher downloads through the API and the command line, bundles only, RADS projects and solutions, version lookups, update checks) on fresh or "
        "partially filled storages x fault points (file operation or request, before, in the middle of, after; error, sticky error, interrupt, kill; refused, error status, "
        "cut, corrupted data) x second fault when run again; non-trivial: a fault did stop the operation")
ASSUMPTIONS = ["an operation of the operating system (write of a block, rename...) is atomic", "renames reach the disk in order (no power failure)"]
CASE_TIMEOUT = 120
TRACE = "Trace_C07"


def designs(g):
    yield "MC_Atomic", "MC_Atomic_thorough.cfg" if g.thorough else "MC_Atomic.cfg", {"workers": 6, "timeout": 800}
    yield "MC_Atomic", "MC_Atomic_copies.cfg", {"workers": 6}


PHASES = {"open": ("open", "before"), "write": ("write", "half"), "rename": ("replace", "before"), "unlink": ("remove", "after"), "link": ("symlink", "before"), "next": ("close", "after")}


def random_fault(rng):
    r = rng.random()
    if r < .72:
        return {"what": "fs", "at": rng.random(), "kind": rng.choice(["error", "error", "interrupt", "kill", "kill"]), "when": rng.choice(["before", "half", "half", "after"]),
                "lazy": rng.random() < .4, "sticky": rng.random() < .25}
    return {"what": "req", "at": rng.random(), "how": rng.choice(["refuse", "status", "cut", "cut", "interrupt", "kill"]), "pos": rng.random(), "sticky": rng.random() < .3}


def rounds(rng, n):
    return [[random_fault(rng) for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]


def even_rounds(n, rng):
    """Each n-th of the operations as fault point"""
    ret = []
    for k in range(n):
        for kind in ("error", "kill"):
            ret.append([{"what": "fs", "at": (k + .5) / n, "kind": kind, "when": rng.choice(["before", "half", "after"]), "lazy": rng.random() < .3, "sticky": False}])
    return ret


def cases(g):
    from vlib import patcherdrv, radsdrv
    from props import c12
    rng = g.rng
    nr = g.pick(10, 24)
    for s in g.scenarios("MC_Atomic", "MC_Atomic_gen.cfg", simulate=g.pick(120, 1500), depth=90)[:g.pick(60, 800)]:
        files = [{"path": f"d/F{i}.txt", "chunks": [f"a{i}", f"b{i}"]} for i in (1, 2)]
        world = {"bundle_of": {"a1": 1, "a2": 1, "b1": 2, "b2": 2}, "releases": [{"ts": 100, "elems": {"client": {"files": files}}}]}
        init = [tuple(x) for x in s["init"]]
        faults = [{"what": "fs", "label": PHASES[ph][0], "when": PHASES[ph][1], "nth": rng.choice([1, 1, 2, 3]), "kind": rng.choice(["error", "interrupt"]) if kind == "fail" else "kill",
                   "lazy": rng.random() < .3, "sticky": False} for kind, ph in s["log"] if ph in PHASES]
        faults = [f for f in faults if not (f["label"] == "remove" and f["kind"] != "kill")]
        yield {"t": "patcher", "world": world, "sym": True, "r": 0, "e": "client", "langs": True, "via": "elem", "prep": [],
               "keep": {"bundles": [n for t, n in init if t == "b"], "files": [f"d/F{n}.txt" for t, n in init if t == "l"]}, "rounds": [faults]}
    for _ in range(g.pick(80, 900)):
        world = patcherdrv.gen_world(rng, rng.choice([1, 2]), max_files=4)
        ri = rng.randrange(len(world["releases"]))
        sym = rng.random() < .65
        prep = []
        if len(world["releases"]) > 1 and rng.random() < .5:
            prep.append({"o": "download", "r": 1 - ri, "e": sorted(world["releases"][1 - ri]["elems"])[0], "langs": patcherdrv.gen_langs(rng), "sym": rng.random() < .65})
        e = rng.choice(sorted(world["releases"][ri]["elems"]))
        if rng.random() < .3:
            prep.append({"o": "download", "r": ri, "e": e, "langs": patcherdrv.gen_langs(rng), "sym": sym})
            prep += [{"o": "rm", "t": rng.choice(["shared", "vis", "bundles"]), "k": rng.randrange(20)} for _ in range(rng.choice([0, 1, 2]))]
            prep += [{"o": "trunc", "t": rng.choice(["shared", "vis"]), "k": rng.randrange(20)} for _ in range(rng.choice([0, 1, 2]))]
        case = {"t": "patcher", "world": world, "sym": sym, "r": ri, "e": e, "langs": patcherdrv.gen_langs(rng), "via": rng.choice(["elem", "elem", "cli", "bundles", "release"]),
                "prep": prep, "rounds": rounds(rng, nr)}
        if case["via"] != "bundles":
            case["rounds"] += [[{"what": "corrupt", "k": rng.randrange(20), "how": rng.choice(["flip", "cut", "zero"])}] for _ in range(rng.choice([0, 1, 2]))]
        yield case
    for _ in range(g.pick(60, 700)):
        names = rng.sample(["alpha", "beta", "league_client", "gamma"], rng.choice([1, 2, 3]))
        projects = [radsdrv.gen_project(rng, x, f"0.0.0.{rng.randint(0, 255)}", rng.randint(0, 5)) for x in names]
        sol = {"name": "league_client_sln", "version": "0.0.0.9", "projects": [[p["name"], p["version"], rng.random() < .6] for p in projects], "langs": {"en_us": rng.sample(names, rng.randint(0, len(names)))}}
        yield {"t": "rads", "world": {"projects": projects, "solutions": [sol]}, "target": rng.choice(["solution", "project"]), "prep": [rng.randrange(20) for _ in range(rng.choice([0, 0, 2]))],
               "rounds": rounds(rng, nr) + [[{"what": "corrupt", "k": rng.randrange(20), "how": rng.choice(["flip", "cut"])}] for _ in range(rng.choice([0, 1]))]}
    vcases = [c for c in c12.cases(Sub(g)) if any(x["src"]["kind"] in ("yaml", "meta", "exe") for x in c["srcs"])]
    rng.shuffle(vcases)
    def stated(src):
        return src["kind"] in ("meta", "exe") or any(x["key"] in ("branch", "game-branch") and x["form"] != "word" for x in src["lines"])
    vcases = [c for c in vcases if any(stated(x["src"]) for x in c["srcs"])]
    for c in vcases[:g.pick(35, 500)]:
        p = rng.choice([i for i, x in enumerate(c["srcs"]) if stated(x["src"])])
        yield {"t": "version", "c": c, "p": p, "prep": [rng.randrange(len(c["srcs"]))] if rng.random() < .4 else [], "rounds": rounds(rng, nr)}
    for _ in range(g.pick(25, 250)):
        man = {f"{a}{i}": [9, i] for a in "cg" for i in range(3)}
        initial = [{"client": f"c{rng.randrange(3)}", "game": f"g{rng.randrange(3)}", "ts": 1600000000 + k} for k in range(rng.choice([0, 0, 1, 2]))]
        yield {"t": "update", "h": {"manifests": man, "initial": {"live": initial}, "salt": rng.randrange(1000), "now": 1600000000 + rng.choice([1, 500, 10**6])},
               "adv": [f"c{rng.randrange(3)}", f"g{rng.randrange(3)}"], "rounds": rounds(rng, nr) + even_rounds(g.pick(3, 12), rng)}


class Sub:
    """Random cases of another check"""

    def __init__(self, g):
        self.rng, self.thorough = g.rng, False
        self.g = g

    def pick(self, quick, thorough):
        return min(quick, 150) if not self.g.thorough else 600

    def scenarios(self, *a, **kw):
        return []


def nontrivial(case, trace):
    return any(e["op"] == "stop" and e["status"] != "ok" for e in trace["ev"])


# -- operations --

class Target:
    """root, cdn, action(): the operation; raises if it fails"""
    clock = None

    def must(self, st):
        if st != "ok":
            raise RuntimeError(st)


class PatcherTarget(Target):
    def __init__(self, case, env):
        from vlib import guard
        from vlib.patcherdrv import Session
        self.case, self.env = case, env
        s = Session(env, case["world"])
        self.w, self.root, self.cdn = s.w, s.w.root, s.w.cdn
        s.run_ops(case["prep"])
        if "keep" in case:
            s.run_ops([{"o": "download", "r": 0, "e": "client", "langs": True, "sym": True}])
            with guard.disabled():
                for n, bid in self.w.bundle_id.items():
                    if n not in case["keep"]["bundles"]:
                        os.remove(os.path.join(self.root, f"channels/public/bundles/{bid:016X}.bundle"))
                for f in case["world"]["releases"][0]["elems"]["client"]["files"]:
                    p = os.path.join(self.w.release_dir(0), "files", f["path"])
                    if f["path"] not in case["keep"]["files"]:
                        os.remove(os.path.realpath(p))
                        os.remove(p)
        self.conf = env.path("conf.json")
        with guard.disabled(), open(self.conf, "w") as f:
            json.dump({"type": "patcher", "path": "store", "use_extract_symlinks": case["sym"]}, f)

    def action(self):
        from cdtb.patcher import PatcherPatchElement
        o, w = self.case, self.w
        e = w.release(w.storage(o["sym"]), o["r"]).element(o["e"])
        if o["via"] == "elem":
            PatcherPatchElement(e).download(langs=o["langs"])
        elif o["via"] == "bundles":
            e.download_bundles(langs=o["langs"], skip_extracted=False)
        elif o["via"] == "release":
            e.download_bundles(langs=o["langs"])
            e.extract(langs=o["langs"])
        else:
            args = ["download", "-s", self.conf, f"{o['e']}={w.version(o['r'], o['e'])}"]
            if o["langs"] is False:
                args.append("--no-lang")
            elif o["langs"] is not True:
                args += ["--lang"] + ([o["langs"]] if isinstance(o["langs"], str) else list(o["langs"]))
            self.must(self.env.cli(args)[0])

    def corrupt(self, k, how):
        """Alter a stored bundle, return how to repair it"""
        d = os.path.join(self.root, "channels/public/bundles")
        names = sorted(n for n in os.listdir(d) if n.endswith(".bundle")) if os.path.isdir(d) else []
        if not names:
            return None
        p = os.path.join(d, names[k % len(names)])
        return alter(p, k, how)


def alter(p, k, how):
    with open(p, "rb") as f:
        data = f.read()
    bad = bytearray(data)
    if how == "cut":
        bad = bad[:len(bad) * (k % 5) // 5]
    elif bad:
        at = (k * 7919) % len(bad)
        bad[at] ^= 0x55
        if how == "zero":
            bad[at:at + 20] = b"\0" * len(bad[at:at + 20])
    with open(p, "wb") as f:
        f.write(bad)

    def repair():
        with open(p, "wb") as f:
            f.write(data)
    return repair


class RadsTarget(Target):
    def __init__(self, case, env):
        from vlib import guard
        from vlib.radsdrv import RadsWorld
        self.case = case
        self.w = RadsWorld(case["world"], env)
        self.root, self.cdn = self.w.root, self.w.cdn
        if case["prep"]:
            with self.cdn:
                env.call(self.action)
            with guard.disabled():
                for k in case["prep"]:
                    paths = [p for p in self.w.plain if os.path.isfile(os.path.join(self.root, p))]
                    if paths:
                        os.remove(os.path.join(self.root, sorted(paths)[k % len(paths)]))

    def action(self):
        if self.case["target"] == "project":
            self.w.project_version(self.case["world"]["projects"][0]).download()
        else:
            self.w.solution_version(self.case["world"]["solutions"][0]).download()

    def corrupt(self, k, how):
        """Alter the packages given by the CDN"""
        urls = sorted(u for u in self.w.package_data)
        if not urls:
            return None
        u = urls[k % len(urls)]
        data = self.cdn.files[u]
        bad = bytearray(data)
        if how == "cut":
            bad = bad[:len(bad) * (k % 5) // 5]
        else:
            # compressed data only: other data is not protected
            return None
        self.cdn.files[u] = bytes(bad)

        def repair():
            self.cdn.files[u] = data
        return repair


class VersionTarget(Target):
    def __init__(self, case, env):
        from props import c12
        self.case = case
        self.w = (c12.PatcherWorld if case["c"]["t"] == "patcher" else c12.RadsVersions)(case["c"], env)
        self.root, self.cdn = self.w.root, self.w.cdn
        with self.cdn:
            for p in case["prep"]:
                if p != case["p"]:
                    env.call(self.w.query, p, "fresh")

    def action(self):
        if self.w.query(self.case["p"], "fresh") is None:
            raise RuntimeError("no version")

    def corrupt(self, k, how):
        return None


class UpdateTarget(Target):
    def __init__(self, case, env):
        from vlib import histdrv
        self.h = histdrv.PatcherHistory(case["h"], env)
        self.h.advertise("live", *case["adv"])
        self.root, self.cdn, self.clock = self.h.root, self.h.cdn, self.h.clock

    def action(self):
        self.h.storage("live", fresh=True).fetch_latest_update()

    def corrupt(self, k, how):
        return None


# -- observations --

def tree(root):
    ret = {}

    def token(p):
        with open(p, "rb") as f:
            return "c" + hashlib.sha1(f.read()).hexdigest()[:10]
    for d, ds, fs in os.walk(root):
        for n in list(ds):
            if os.path.islink(os.path.join(d, n)):
                ds.remove(n)
                fs.append(n)
        for n in fs:
            p = os.path.join(d, n)
            link = os.readlink(p) if os.path.islink(p) else ""
            ret[os.path.relpath(p, root)] = {"link": link, "c": token(p) if os.path.isfile(p) else "dangling" if link else "?"}
    return ret


def run(case, env):
    from contextlib import nullcontext
    from vlib import guard
    from vlib.faults import Counter, FsFaults, in_child
    t = {"patcher": PatcherTarget, "rads": RadsTarget, "version": VersionTarget, "update": UpdateTarget}[case["t"]](case, env)
    backup = env.path("backup")
    cdn = t.cdn
    ev = []

    def look():
        with guard.disabled():
            return tree(t.root)

    def restore():
        with guard.disabled():
            shutil.rmtree(t.root)
            shutil.copytree(backup, t.root, symlinks=True)

    with guard.disabled():
        shutil.copytree(t.root, backup, symlinks=True)
    with cdn, (t.clock or nullcontext()):
        # undisturbed run
        cdn.log.clear()
        dry = Counter(root=t.root)
        with FsFaults(dry):
            st, _ = env.call(t.action)
        nops, nreq, ops = dry.n, len(cdn.log), list(dry.ops)
        lazy = None
        goal = look()
        if st != "ok":
            return {"goal": goal, "free": [], "ev": [{"op": "rerun", "status": st, "now": goal}]}
        for faults in case["rounds"]:
            restore()
            before = look()
            done = False
            repair = None
            for f in faults:
                if f["what"] == "corrupt":
                    with guard.disabled():
                        repair = t.corrupt(f["k"], f["how"])
                    if repair is None:
                        continue
                    before = look()
                    st, _ = env.call(t.action)
                    ev.append({"op": "stop", "kind": "corrupt", "before": before, "now": look(), "status": st if st == "ok" else "raised"})
                    with guard.disabled():
                        repair()
                    ev[-1]["now"] = mend(ev[-1], look())
                    done = True
                    continue
                if f["what"] == "fs":
                    if "label" in f:
                        at = [i + 1 for i, x in enumerate(ops) if x == f["label"]]
                        if not at:
                            continue
                        match, n = (lambda label, path, want=f["label"]: label == want), f["nth"]
                    else:
                        # removals are not stopped: they are what cleans up
                        if f["kind"] == "kill":
                            match, n = None, 1 + int(f["at"] * nops)
                        else:
                            total = sum(x not in ("remove", "unlink", "rmdir") for x in ops)
                            match, n = (lambda label, path: label not in ("remove", "unlink", "rmdir")), 1 + int(f["at"] * total)
                    if not nops:
                        continue
                    c = Counter(at=n, kind=f["kind"], when=f["when"], root=t.root, lazy=f["lazy"], sticky=f["sticky"] and f["kind"] == "error", match=match)
                    if f["kind"] == "kill":
                        def child():
                            with FsFaults(c):
                                t.action()
                        code = in_child(child)
                        st = {0: "ok"}.get(code, "raised")
                        kind = "kill" if code == 77 else "fail"
                    else:
                        with FsFaults(c):
                            st, _ = env.call(t.action)
                        kind = "fail"
                else:
                    if not nreq:
                        continue
                    at = int(f["at"] * nreq)
                    cdn.log.clear()
                    size = lambda url: int(f["pos"] * len(cdn.files.get(url, b"")))
                    main = threading.main_thread()

                    def hook(url, method, n):
                        if n != at and not (f["sticky"] and n > at):
                            return None
                        if f["how"] == "kill":
                            os._exit(77)
                        if f["how"] == "interrupt":
                            return ("interrupt", KeyboardInterrupt()) if threading.current_thread() is main else "refuse"
                        return {"refuse": "refuse", "status": ("status", 500), "cut": ("cut", size(url), "error")}[f["how"]]
                    cdn.hook = hook
                    if f["how"] == "kill":
                        code = in_child(t.action)
                        st = {0: "ok"}.get(code, "raised")
                        kind = "kill" if code == 77 else "fail"
                    else:
                        st, _ = env.call(t.action)
                        kind = "fail"
                    cdn.hook = None
                now = look()
                ev.append({"op": "stop", "kind": kind, "before": before, "now": now, "status": "ok" if st == "ok" else "raised"})
                before = now
                done = True
            if done:
                st, _ = env.call(t.action)
                ev.append({"op": "rerun", "status": st, "now": look()})
    return {"goal": goal, "free": [], "ev": ev}


def mend(e, repaired):
    return {p: (repaired[p] if e["before"].get(p) == x and p in repaired and p.endswith(".bundle") else x) for p, x in e["now"].items()} | {}
