"""C08: parallel bundle download fetches each needed bundle exactly once"""

LEVEL = "model_checking"
TECHNIQUE = "TLA+ (TLC): all schedules of the download pool model-checked; generated schedules forced on the real thread pool, traces validated"
NOTE = ("TLC explores every schedule of a pool of 3 workers on up to 4 bundles with every failing subset (safety and termination), and "
        "generates completion orders; the fake CDN holds the requests of the real thread pool and answers them in that order. Every start, "
        "answer and the return are validated. Interleavings inside the interpreter other than the order of answers are not controlled.")
RULE = ("all schedules of 3 bundles (needed, stored, failing subsets, completion orders) and simulated schedules of up to 12 bundles with 8 "
        "workers, failures being refused connections, error statuses or cut bodies, followed by a retry; non-trivial: at least two requests")
ASSUMPTIONS = ["scheduling is controlled at the order in which requests are answered"]
CASE_TIMEOUT = 60


def designs(g):
    yield "MC_BundlePool", "MC_BundlePool_thorough.cfg" if g.thorough else "MC_BundlePool.cfg", {"workers": 2}


def cases(g):
    rng = g.rng
    small = g.scenarios("MC_BundlePool", "MC_BundlePool_gen3.cfg")
    rng.shuffle(small)
    big = g.scenarios("MC_BundlePool", "MC_BundlePool_gen.cfg", simulate=g.pick(150, 1500), depth=80)
    for n, s in enumerate(small[:g.pick(150, 100000)] + big):
        for k in ("need", "before", "bad", "order"):
            s[k] = list(s[k])
        s["fault"] = rng.choice(["refuse", "status", "cut", "mixed"])
        s["api"] = rng.choice(["download_bundles", "download", "release"])
        s["n"] = 3 if n < min(len(small), g.pick(150, 100000)) else 12
        yield s


def nontrivial(case, trace):
    return sum(e["op"] == "start" for e in trace["ev"]) >= 2


def run(case, env):
    import os
    import re
    import threading
    import time
    from vlib import patcherdrv, rman, guard
    n = case["n"]
    world = {"bundle_of": {f"a{b}": b for b in range(1, n + 1)}, "releases": [
        {"ts": 100, "elems": {"client": {"files": [{"path": f"F{b}", "chunks": [f"a{b}"]} for b in case["need"]]},
                              "game": {"files": [{"path": f"G{b}", "chunks": [f"a{b}"]} for b in range(1, n + 1)]}}}]}
    w = patcherdrv.World(world, env)
    number = {rman.bundle_url(bid): no for bid, no in w.bundle_no.items()}
    with guard.disabled():
        os.makedirs(os.path.join(w.root, "channels/public/bundles"))
        for b in case["before"]:
            with open(os.path.join(w.root, f"channels/public/bundles/{w.bundle_id[b]:016X}.bundle"), "wb") as f:
                f.write(w.builder.bundle_data(w.bundle_id[b]))
    ev = []
    lock = threading.Condition()
    waiting, allowed = [], set()
    state = {"open": False, "last": 0.0, "stop": False}
    bad = set(case["bad"])

    def fault_of(b):
        kind = case["fault"]
        if kind == "mixed":
            kind = ["refuse", "status", "cut"][b % 3]
        size = len(w.builder.bundle_data(w.bundle_id[b]))
        return {"refuse": "refuse", "status": ("status", 503), "cut": ("cut", size // 2, "error")}[kind]

    def gate(url):
        b = number.get(url)
        if b is None:
            return
        with lock:
            ev.append({"op": "start", "b": b})
            waiting.append(b)
            state["last"] = time.monotonic()
            lock.notify_all()
            while not (b in allowed or state["open"]):
                lock.wait(5)
            if b in waiting:
                waiting.remove(b)
            allowed.discard(b)
            ev.append({"op": "end", "b": b, "ok": b not in bad})

    def scheduler():
        order = list(case["order"])
        while True:
            with lock:
                if state["stop"]:
                    return
                now = time.monotonic()
                todo = [b for b in order if b in waiting]
                expected = min(8, len(order))
                if todo and (len(waiting) >= expected or now - state["last"] > .05):
                    # the earliest of the schedule among those in flight
                    b = todo[0]
                    order.remove(b)
                    allowed.add(b)
                    waiting.remove(b)
                    state["last"] = now
                    lock.notify_all()
                elif waiting and not todo:
                    allowed.add(waiting.pop(0))
                    lock.notify_all()
                lock.wait(.002)

    w.cdn.gate = gate
    w.cdn.hook = lambda url, method, k: fault_of(number[url]) if number.get(url) in bad else None
    from cdtb.patcher import PatcherPatchElement

    def call(api):
        e = w.release(w.storage(True), 0).element("client")
        if api == "download":
            return PatcherPatchElement(e).download()
        if api == "release":
            return e.download_bundles(langs=True, skip_extracted=False)
        return e.download_bundles()

    with w.cdn:
        for attempt in range(2):
            ev.append({"op": "call", "need": case["need"] })
            state["open"] = attempt > 0
            t = threading.Thread(target=scheduler, daemon=True)
            state["stop"] = False
            t.start()
            st, _ = env.call(call, case["api"])
            with lock:
                snap = w.snapshot()
                ev.append({"op": "return", "status": st, "bundles": snap["bundles"], "odd": snap["odd"]})
                state["stop"] = True
            t.join()
            with lock:
                early = bool(waiting)
                state["open"] = True
                lock.notify_all()
            if early:
                time.sleep(.3)
            if not bad:
                break
            bad.clear()
    return {"stored": case["before"], "ev": ev}
