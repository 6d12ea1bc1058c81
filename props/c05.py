"""C05: a completed patcher download holds every selected file, intact"""

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): exhaustive model of bundle and file extraction, replay of its behaviours and trace validation of the real storage"
NOTE = ("TLC explores the extraction algorithm (shared store, links, copies, crashes, outside removals) exhaustively for 2 releases of 2 "
        "files; generated and random histories of downloads are run on the real storage with a fake CDN and every resulting tree is "
        "validated against the specification. Trusted: manifest encoder, zstd.")
RULE = ("histories of downloads (all APIs, of elements or whole releases, both symlink settings, language selections, interrupted downloads) over 1-3 releases sharing chunks, "
        "with files removed or given a wrong size in between, manifests retrieved by identifier or URL, valid or not; from TLC simulation and random; non-trivial: a download selecting a file")
ASSUMPTIONS = ["game and client of a release have no file with the same path", "a stored file with the right size has not been altered from outside",
               "distinct chunks have distinct content, except empty ones"]
TRACE = "Trace_C05"


def designs(g):
    yield "MC_Patcher", "MC_Patcher.cfg" if not g.thorough else "MC_Patcher_thorough.cfg", {"workers": 4, "timeout": 800}


def from_spec(s):
    """A behaviour of MC_Patcher to a world and operations"""
    files = lambda r: [{"path": f"dir{i}/File{i}.txt", "chunks": [c + "0" for c in ch]} for i, ch in enumerate(s["world"][r])]
    world = {"bundle_of": {"a0": 1, "b0": 2}, "releases": [
        {"ts": 100 + r, "elems": {"client": {"files": files(r)}}} for r in range(2)]}
    ops, so = [], s["ops"]
    for i, o in enumerate(so):
        if o["o"] == "download":
            d = {"o": "download", "r": o["r"] - 1, "e": "client", "langs": True, "sym": o["sym"]}
            if i + 1 < len(so) and so[i + 1]["o"] == "crash":
                d["fail"] = 1 + i % 2
            ops.append(d)
        elif o["o"] == "rmshared":
            ops.append({"o": "rm", "t": "shared", "k": i})
        elif o["o"] == "rmbundles":
            ops.append({"o": "rm", "t": "bundles", "all": True})
    return {"world": world, "ops": ops}


FORMS = ["id", "id", "plain", "secure", "http", "host", "port", "lower", "short", "long", "query", "ext", "end", "dir", "up", "relative", "empty",
         "twice", "suffix", "encoded"]


def gen_ops(rng, world, n, drv):
    ops = []
    for _ in range(n):
        ri = rng.randrange(len(world["releases"]))
        e = rng.choice(sorted(world["releases"][ri]["elems"]))
        base = {"r": ri, "e": e, "langs": drv.gen_langs(rng), "sym": rng.random() < .65}
        r = rng.random()
        if r < .6:
            d = dict(base, o="download", via=rng.choice(["elem", "elem", "release", "whole", "patch", "cli"]))
            if d["via"] == "cli" and rng.random() < .5:
                d["langs"] = True
            d["overwrite"] = rng.random() < .2
            if rng.random() < .12:
                d["fail"] = rng.choice([0, 1, 2, 3])
            ops.append(d)
        elif r < .68:
            ops.append(dict(base, o="extract"))
        elif r < .73:
            ops.append(dict(base, o="manifest", gone=rng.random() < .5, form=rng.choice(FORMS)))
        elif r < .8:
            ops.append(dict(base, o="query"))
        elif r < .93:
            ops.append({"o": "rm", "t": rng.choice(["shared", "vis", "vis", "bundles"]), "k": rng.randrange(20), "all": rng.random() < .2})
        else:
            ops.append({"o": "trunc", "t": rng.choice(["shared", "vis"]), "k": rng.randrange(20)})
    return ops


def cases(g):
    from vlib import patcherdrv as drv
    for s in g.scenarios("MC_Patcher", "MC_Patcher_gen.cfg", simulate=g.pick(400, 4000), depth=60)[:g.pick(250, 3000)]:
        yield from_spec(s)
    for _ in range(g.pick(350, 4000)):
        world = drv.gen_world(g.rng)
        yield {"world": world, "ops": gen_ops(g.rng, world, g.rng.choice([2, 4, 6, 8]), drv)}


def nontrivial(case, trace):
    return any(e["op"] in ("download", "extract") and e["vis"] for e in trace["ev"])


def run(case, env):
    from vlib.patcherdrv import Session
    s = Session(env, case["world"])
    ev = s.run_ops(case["ops"])
    return {"man": s.w.manifests(), "bundleOf": s.w.bundle_of, "ev": ev}
