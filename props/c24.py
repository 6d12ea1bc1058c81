"""C24: hash lists survive saving, loading and updating"""
import os

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): hash lists as texts and mappings, with interrupted saves and fetches, model checked; generated histories replayed on HashFile and fetch-hashes"
NOTE = ("TLC checks that no interruption leaves a truncated list and that a saved list loads back. Histories it generates are replayed on HashFile objects and "
        "on update_default_hashfile or the fetch-hashes command behind a fake server, with faults at file-system operations and requests; files and mappings are "
        "compared by TLC, character by character.")
RULE = ("histories from TLC over two objects with hashes of 1 to 64 bits and any path; local and server times around equality; faults and kills while saving and "
        "fetching; default lists located from environment variables; non-trivial: a list is saved, loaded or fetched with at least two hashes")
ASSUMPTIONS = ["paths contain no line break", "the server's copies are dated in whole seconds",
               "nobody else writes the list during an operation"]
TRACE = "Trace_C24"
NAMES = ["hashes.binentries.txt", "hashes.binfields.txt", "hashes.binhashes.txt", "hashes.bintypes.txt", "hashes.game.txt", "hashes.lcu.txt",
         "hashes.rst.txt", "hashes.rst.xxh64.txt", "hashes.rst.xxh3.txt"]
URL = "https://raw.communitydragon.org/data/hashes/lol/"
BASE = 1700000000


def designs(g):
    yield "MC_HashLists", "MC_HashLists_thorough.cfg" if g.thorough else "MC_HashLists.cfg", {"workers": 4, "timeout": 600}


ALPHABET = "abzAZ09/_.-" * 4 + "  %{}\"'#\t" + "\x0b\x0c\x1c\x85\xa0\xe9\u2028\u3042\U0001f600" + "\x00"


def gen_path(rng):
    if rng.random() < .5:
        return rng.choice(["a", "a b", " a", "a ", "", "é", "B", "b", "data/x.bin", "assets/y_1.dds", "a  b", "Z", "10 11", "{deadbeef}"])
    return "".join(rng.choice(ALPHABET) for _ in range(rng.randrange(1, 9)))


def gen_hash(rng, size):
    r = rng.random()
    if r < .1:
        return 0
    if r < .3:
        return rng.randrange(16)
    if r < .8:
        return rng.randrange(16 ** min(size or 8, 16))
    return rng.randrange(16 ** 16)


def gen_text(rng, size, n=None):
    """A list as text, and whether it is well-formed"""
    lines = []
    for _ in range(rng.randrange(5) if n is None else n):
        h = gen_hash(rng, size)
        s = rng.choice([f"{h:0{size}x}"] * 4 + [f"{h:x}", f"{h:X}", f"{h:020x}"])
        lines.append(f"{s} {gen_path(rng)}")
    if rng.random() < .06:
        lines.insert(rng.randrange(len(lines) + 1), rng.choice(["nothex path", "zz", "", "1234567890", "{12} a"]))
    if len(lines) > 1 and rng.random() < .2:
        lines.append(lines[0].split(" ", 1)[0] + " other")
    t = rng.choice(["\n"] * 5 + ["\r\n"])
    return t.join(lines) + (t if lines and rng.random() < .85 else "")


def cases(g):
    rng = g.rng
    scen = g.scenarios("MC_HashLists", "MC_HashLists_gen.cfg", simulate=g.pick(300, 3000), depth=60)
    rng.shuffle(scen)
    for s in scen[:g.pick(900, 9000)]:
        names = rng.sample(NAMES, 2)
        objs = [{"n": rng.choice(names), "size": rng.choice([8, 16, 16, 16, 1, 4, 10])} for _ in range(2)]
        size = objs[0]["size"]
        hs = {}
        ops = []
        fault = rng.random() < .4
        for n in NAMES:
            if n in names or rng.random() < .15:
                if rng.random() < .6:
                    ops.append({"o": "put", "n": n, "text": gen_text(rng, size), "t": rng.choice([1, 4, 4]) * rng.randrange(-10, 10), "ns": rng.choice([0, 0, 1000])})
                ops.append({"o": "publish", "n": n, "text": gen_text(rng, size), "d": rng.choice([-2, -1, 0, 1, 2])})
        for o in s["ops"]:
            key = (tuple(o["h"]), tuple(o["p"]))
            k = rng.randrange(2)
            if o["o"] in ("set", "del"):
                h = hs.setdefault(key[0], gen_hash(rng, size))
                p = gen_path(rng)
                if rng.random() < .01:
                    p += "\udc80"
                ops.append({"o": o["o"], "k": k, "h": h, "p": p})
            elif o["o"] == "fetch":
                ops.append({"o": "fetch", "names": rng.choice([[names[0]], [names[1]], ["all"]])})
            elif o["o"] == "publish":
                ops.append({"o": "publish", "n": rng.choice(names), "text": gen_text(rng, size), "d": rng.choice([-2, -1, 0, 1, 1, 2])})
            elif o["o"] == "remove":
                ops.append({"o": "remove", "n": rng.choice(names)})
            else:
                ops.append({"o": o["o"], "k": k})
            if ops[-1]["o"] in ("save", "fetch") and fault and rng.random() < .5:
                ops[-1]["fault"] = {"at": rng.randrange(1, 9), "kind": rng.choice(["error", "error", "interrupt", "kill"]),
                                    "when": rng.choice(["before", "half", "after"]), "lazy": rng.random() < .4}
            if ops[-1]["o"] == "fetch" and fault and rng.random() < .5:
                ops[-1]["server"] = {rng.choice(names): rng.choice(["missing", "refuse", "status", "cut", "head"])}
            if ops[-1]["o"] == "save" and rng.random() < .7:
                ops.append({"o": rng.choice(["reload", "restart"]), "k": k})
                ops.append({"o": "load", "k": k})
            if rng.random() < .1:
                ops.append({"o": "put", "n": rng.choice(names), "text": gen_text(rng, size), "t": rng.choice([1, 4, 4]) * rng.randrange(-10, 10), "ns": rng.choice([0, 0, 1000])})
        yield {"objs": objs, "ops": ops, "cli": rng.random() < .7}
    # location of default lists
    for _ in range(g.pick(50, 300)):
        value = lambda k, *rel: rng.choice(["", "", f"/S/{k}", f"/S/{k}/a b", f"/S/{k}é/.x"] + list(rel))
        yield {"objs": [], "cli": False, "ops": [{"o": "place", "empty": rng.random() < .5, "vars": {
            "CDTB_HASHES_DIR": value("cdtb", "rel/dir") if rng.random() < .5 else "", "CDRAGON_DATA": value("cdragon", "rel2") if rng.random() < .6 else "",
            "XDG_DATA_HOME": value("xdg", "rel3"), "LOCALAPPDATA": value("app"), "HOME": f"/S/{rng.choice('hg')}"}}]}
    # default list of archives
    for _ in range(g.pick(30, 200)):
        yield {"objs": [], "cli": False, "ops": [{"o": "default", "path": rng.choice(["", "a/", "/x.wad.client/", "a.wad/"]) + rng.choice(
            ["x.wad", "x.wad.client", "x.WAD", "x.wad.client.bak", "wad", "x", ".wad", "x.client", "x.wad.mobile", "xwad", "x.wad.client.wad", "Champ.en_US.wad.client", ".wad.client"])} for _ in range(6)]}
    # many hashes
    for _ in range(g.pick(6, 40)):
        text = gen_text(rng, 16, 40)
        yield {"objs": [{"n": "hashes.game.txt", "size": 16}], "cli": False, "ops": [
            {"o": "put", "n": "hashes.game.txt", "text": text, "t": 0}, {"o": "load", "k": 0}, {"o": "save", "k": 0}, {"o": "restart", "k": 0}, {"o": "load", "k": 0}]}


def nontrivial(case, trace):
    return any(len(e.get("map", ())) > 1 or len(e.get("gets", ())) for e in trace["ev"])


def digits(h):
    return [int(c, 16) for c in f"{h:x}"] if h else []


SOURCES = {}
LISTS = [("hashes", "hashfile_lcu"), ("hashes", "hashfile_game"), ("binfile", "hashfile_binentries"), ("binfile", "hashfile_binhashes"), ("binfile", "hashfile_binfields"),
         ("binfile", "hashfile_bintypes"), ("rstfile", "hashfile_rst_xxh64"), ("rstfile", "hashfile_rst_xxh3")]


def setup():
    import cdtb.hashes
    for n in ("hashes", "binfile", "rstfile"):
        p = os.path.join(os.path.dirname(cdtb.hashes.__file__), n + ".py")
        with open(p) as f:
            SOURCES[n] = compile(f.read(), p, "exec")


def place(o, env):
    """Where default lists are saved, from the environment"""
    import sys
    import types
    from vlib import guard
    from vlib.faults import in_child
    top = env.path("S")
    with guard.disabled():
        os.makedirs(os.path.join(top, "cwd"))
    real = {k: v.replace("/S", top, 1) if v.startswith("/") else v for k, v in o["vars"].items()}

    def child():
        os.chdir(os.path.join(top, "cwd"))
        for k in ("CDTB_HASHES_DIR", "CDRAGON_DATA", "XDG_DATA_HOME", "LOCALAPPDATA"):
            os.environ.pop(k, None)
        os.environ.update({k: v for k, v in real.items() if v or o["empty"]})
        for n, code in SOURCES.items():
            mod = types.ModuleType("cdtb." + n)
            mod.__package__, mod.__file__ = "cdtb", code.co_filename
            sys.modules["cdtb." + n] = mod
            setattr(sys.modules["cdtb"], n, mod)
            exec(code, mod.__dict__)
        os.makedirs(sys.modules["cdtb.hashes"].default_hash_dir, exist_ok=True)
        for m, n in LISTS:
            hf = getattr(sys.modules["cdtb." + m], n)
            hf.hashes = {0xab: n}
            hf.save()
    code = in_child(child)
    files = []
    with guard.disabled():
        for d, _, names in os.walk(top):
            for n in names:
                with open(os.path.join(d, n)) as f:
                    files.append({"path": "/S" + os.path.join(d, n)[len(top):], "text": f.read()})
    return {"op": "place", "vars": o["vars"], "status": "ok" if code == 0 else "raised", "files": files}


def codes(s):
    return [ord(c) for c in s]


def run(case, env):
    from vlib import guard
    from vlib.cdn import Cdn
    from vlib.faults import Counter, FsFaults, in_child
    import cdtb.hashes as H
    from email.utils import formatdate
    hdir = str(H.default_hash_dir)
    ev = []
    cdn = Cdn()
    server = {}

    def full(n):
        return os.path.join(hdir, n)

    def mtime(n):
        return (os.stat(full(n)).st_mtime_ns - BASE * 10**9) // 250000000

    def disk():
        ret, extra = [], False
        for n in sorted(os.listdir(hdir)):
            if n not in NAMES:
                extra = True
                continue
            with open(full(n), encoding="utf-8", newline="", errors="surrogatepass") as f:
                ret.append({"n": n, "text": codes(f.read()), "t": mtime(n)})
        return ret, extra

    def wipe(everything=False):
        for n in os.listdir(hdir):
            if everything or n not in NAMES:
                os.remove(full(n))

    with guard.disabled():
        os.makedirs(hdir, exist_ok=True)
        wipe(True)
    make = lambda o: H.HashFile(full(o["n"]) if case["cli"] else H.default_hash_dir / o["n"], o["size"])
    objs = [make(o) for o in case["objs"]]

    def faulty(o, fn):
        """Perform an operation with its fault: status, fault fired"""
        fault = o.get("fault")
        if not fault:
            st, v = env.call(fn)
            return ("ok" if st == "ok" or (st == "exit" and not v) else "raised"), False
        c = Counter(at=fault["at"], kind=fault["kind"], when=fault["when"], root=hdir, lazy=fault["lazy"],
                    match=lambda label, p: label not in ("remove", "unlink") and os.path.abspath(os.fsdecode(p)) != hdir)
        if fault["kind"] != "kill":
            with FsFaults(c):
                st, v = env.call(fn)
            return ("ok" if st == "ok" else "raised"), c.fired is not None

        def child():
            with FsFaults(c):
                fn()
        code = in_child(child)
        return {0: "ok", 77: "killed"}.get(code, "raised"), code == 77

    for o in case["ops"]:
        kind = o["o"]
        if kind in ("put", "publish", "remove"):
            with guard.disabled():
                if kind == "put":
                    with open(full(o["n"]), "w", encoding="utf-8", newline="") as f:
                        f.write(o["text"])
                    t = BASE * 10**9 + o["t"] * 250000000 + o.get("ns", 0)
                    os.utime(full(o["n"]), ns=(t, t))
                elif kind == "remove":
                    if os.path.exists(full(o["n"])):
                        os.remove(full(o["n"]))
                else:
                    t = BASE + mtime(o["n"]) // 4 + o["d"] if os.path.exists(full(o["n"])) else BASE + o["d"]
                    server[o["n"]] = {"t": t, "text": o["text"]}
                    cdn.files[URL + o["n"]] = o["text"].encode("utf-8")
                    cdn.headers[URL + o["n"]] = {"Last-Modified": formatdate(t, usegmt=True)}
                d, extra = disk()
            if kind != "publish":
                ev.append({"op": "disk", "disk": d})
        elif kind == "place":
            ev.append(place(o, env))
        elif kind == "default":
            st, v = env.call(H.default_hashfile, o["path"])
            got = {id(H.hashfile_game): "game", id(H.hashfile_lcu): "lcu"}.get(id(v), "other") if st == "ok" else "refused"
            ev.append({"op": "default", "path": codes(o["path"]), "got": got})
        elif kind in ("load", "reload"):
            force = kind == "reload"
            st, v = env.call(objs[o["k"]].load, **({"force": True} if force else {}))
            ok = st == "ok"
            ev.append({"op": "load", "o": o["k"] + 1, "force": force, "status": "ok" if ok else "missing" if v == "FileNotFoundError" else "raised",
                       "map": [{"h": digits(h), "p": codes(p)} for h, p in v.items()] if ok else []})
        elif kind in ("set", "del"):
            hf = objs[o["k"]]
            if hf.hashes is None:
                continue
            if kind == "set":
                hf.hashes[o["h"]] = o["p"]
            else:
                hf.hashes.pop(o["h"], None)
            ev.append({"op": kind, "o": o["k"] + 1, "h": digits(o["h"]), "p": codes(o["p"])})
        elif kind == "restart":
            objs[o["k"]] = make(case["objs"][o["k"]])
            ev.append({"op": "restart", "o": o["k"] + 1})
        elif kind == "save":
            status, fired = faulty(o, objs[o["k"]].save)
            with guard.disabled():
                d, extra = disk()
                wipe()
            ev.append({"op": "save", "o": o["k"] + 1, "status": status, "fault": fired, "disk": d, "extra": extra})
            if status == "killed":
                for k in range(2):
                    objs[k] = make(case["objs"][k])
                    ev.append({"op": "restart", "o": k + 1})
        elif kind == "fetch":
            names = o["names"] if o["names"] != ["all"] else [n for n in NAMES]
            faults = dict(o.get("server", {}))
            for n in names:
                if n not in server:
                    faults[n] = "missing"
            if o["names"] == ["all"] and not (case["cli"] and len(server) == len(NAMES)):
                # the whole command needs all lists on the server
                for n in NAMES:
                    if n not in server:
                        server[n] = {"t": BASE - 100, "text": "1 x\n"}
                        cdn.files[URL + n] = b"1 x\n"
                        cdn.headers[URL + n] = {"Last-Modified": formatdate(BASE - 100, usegmt=True)}
                        faults.pop(n, None)
            start = len(cdn.log)

            def hook(url, method, n):
                f = faults.get(url[len(URL):])
                if f == "missing":
                    return ("status", 404)
                if f == "status" or (f == "head" and method == "HEAD"):
                    return ("status", 503)
                if f == "cut" and method == "GET":
                    return ("cut", max(0, len(cdn.files.get(url, b"")) // 2), "error")
                return "refuse" if f == "refuse" else None
            cdn.hook = hook

            def fetch():
                if o["names"] == ["all"]:
                    st, out, err = env.cli(["fetch-hashes"])
                    if st != "ok":
                        raise RuntimeError(st)
                else:
                    for n in names:
                        H.update_default_hashfile(n)
            with cdn:
                status, fired = faulty(o, fetch)
            with guard.disabled():
                d, extra = disk()
                wipe()
            ev.append({"op": "fetch", "names": names, "status": status, "fault": fired, "disk": d, "extra": extra,
                       "server": [{"n": n, "text": codes(server[n]["text"]) if n in server else [], "t": (server[n]["t"] - BASE) * 4 if n in server else 0,
                                   "fault": faults.get(n, "")} for n in names],
                       "gets": sorted({u[len(URL):] for u, m, _ in cdn.log[start:] if m == "GET"})})
    with guard.disabled():
        wipe(True)
    return {"ev": ev, "cfg": {"objs": case["objs"]}}
