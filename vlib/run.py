"""Runner of the checks: design checks, execution of the cases on the real code, trace validation, verdict."""
import argparse
import concurrent.futures as cf
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
NOBODY = 65534
MAX_HANGS = 8
NPROC = max(2, min(8, os.cpu_count() or 2))


class Ctx:
    """What a property module uses to generate its cases"""

    def __init__(self, prop, tier, seed, work):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.work = work
        self.rng = random.Random(f"{prop}-{seed}")
        self.states = 0
        self.transitions = 0
        self.spec_runs = []
        self.design_error = None

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def _count(self, st):
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.spec_runs.append(st)

    def design(self, module, cfg, **kw):
        st = tlc.design_check(module, cfg, self.work, **kw)
        self._count(st)
        return st

    def scenarios(self, module, cfg, **kw):
        """Behaviours of a specification, as generated by TLC"""
        kw.setdefault("seed", self.rng.randrange(1, 2**31) if kw.get("simulate") else None)
        ret, st = tlc.generate(module, cfg, self.work, **kw)
        self._count(st)
        return ret


def check_json(x, path="$"):
    """TLC has 32-bit integers and no null or floats"""
    if x is None or isinstance(x, float):
        raise ValueError(f"{path}: {x!r} cannot be given to TLC")
    if isinstance(x, bool):
        return
    if isinstance(x, int):
        if not -2**31 < x < 2**31:
            raise ValueError(f"{path}: integer out of range: {x}")
    elif isinstance(x, dict):
        for k, v in x.items():
            if not isinstance(k, str):
                raise ValueError(f"{path}: key {k!r}")
            check_json(v, f"{path}.{k}")
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            check_json(v, f"{path}[{i}]")
    elif not isinstance(x, str):
        raise ValueError(f"{path}: {type(x)}")


# -- execution of cases --

def drop_privileges(scratch):
    """Become an unprivileged user, if possible"""
    if os.geteuid() != 0:
        return False
    try:
        os.setgroups([])
    except OSError:
        pass
    try:
        os.setresgid(NOBODY, NOBODY, NOBODY)
        os.setresuid(NOBODY, NOBODY, NOBODY)
    except OSError:
        return False
    return True


def worker_main(argv):
    """Worker process: run cases of a shard, write one line per case"""
    prop, shard_in, scratch = argv
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    os.environ["HOME"] = scratch
    os.environ["CDTB_HASHES_DIR"] = os.path.join(scratch, "hashes")
    os.umask(0o022)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    mod = importlib.import_module(f"props.{prop.lower()}")
    from . import wenv, guard
    wenv.preload()
    if hasattr(mod, "setup"):
        mod.setup()
    with open(shard_in) as f:
        cases = [json.loads(line, object_hook=unbytes) for line in f]
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    os.chdir(scratch)
    drop_privileges(scratch)
    guard.install(scratch)
    for n, case in cases:
        env = wenv.Env(scratch, n)
        out.write(json.dumps(["start", n]) + "\n")
        out.flush()
        try:
            trace = wenv.run_case(mod, case, env)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)) and not isinstance(e, wenv.Timeout):
                pass
            trace = {"ev": [{"op": "observation-failed"}], "error": traceback.format_exc()[-3000:], "exc": type(e).__name__}
        finally:
            env.cleanup()
        if env.timeouts:
            trace["hang"] = env.timeouts
        if env.last_tb:
            trace["tb"] = env.last_tb[-3000:]
        esc = guard.take_escapes()
        if esc:
            trace["escapes"] = esc[:10]
        out.write(json.dumps(["done", n, trace]) + "\n")
        out.flush()


def execute(prop, cases, work, case_timeout, nproc=NPROC):
    """Run the cases on the real code, return their traces (None if given up after several hangs)"""
    hangs = []
    traces = [None] * len(cases)
    nproc = max(1, min(nproc, len(cases)))
    # deal cases round-robin
    shards = [[(n, cases[n]) for n in range(i, len(cases), nproc)] for i in range(nproc)]

    def run_shard(i):
        todo = shards[i]
        while todo and sum(hangs) < MAX_HANGS:
            scratch = tempfile.mkdtemp(prefix=f"scratch{i}-", dir=work)
            os.chmod(scratch, 0o755)
            if os.geteuid() == 0:
                os.chown(scratch, NOBODY, NOBODY)
            fin = os.path.join(work, f"shard{i}.in")
            with open(fin, "w") as f:
                for item in todo:
                    f.write(json.dumps(item, default=tobytes) + "\n")
            env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
            env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=ROOT, TMPDIR=scratch,
                       PYTHONPYCACHEPREFIX="/nonexistent")
            p = subprocess.Popen([PYTHON, "-m", "vlib.run", "--worker", prop, fin, scratch],
                                 cwd=ROOT, env=env, stdout=subprocess.PIPE,
                                 stderr=None if os.environ.get("VERIF_DEBUG") else subprocess.DEVNULL, start_new_session=True)
            current, done, hang = None, set(), False
            import selectors
            sel = selectors.DefaultSelector()
            os.set_blocking(p.stdout.fileno(), False)
            sel.register(p.stdout, selectors.EVENT_READ)
            buf = b""
            last = time.time()
            while True:
                if sel.select(timeout=1.0):
                    data = p.stdout.read(1 << 20)
                    if data == b"":
                        break
                    if data:
                        last = time.time()
                        buf += data
                        *lines, buf = buf.split(b"\n")
                        for line in lines:
                            msg = json.loads(line)
                            if msg[0] == "start":
                                current = msg[1]
                            else:
                                traces[msg[1]] = msg[2]
                                hangs.append(bool(msg[2].get("hang")))
                                done.add(msg[1])
                                current = None
                if time.time() - last > case_timeout + 30:
                    hang = True
                    break
                if sum(hangs) >= MAX_HANGS:
                    break
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            shutil.rmtree(scratch, ignore_errors=True)
            if sum(hangs) >= MAX_HANGS:
                return
            if current is None and not done:
                raise RuntimeError(f"worker of {prop} failed to start (rc={p.returncode})")
            if current is not None:
                traces[current] = {"ev": [{"op": "observation-failed"}], "exc": "hang" if hang else "worker-died"}
                hangs.append(True)
                done.add(current)
            elif len(done) < len(todo):
                raise RuntimeError(f"worker of {prop} stopped (rc={p.returncode})")
            todo = [t for t in todo if t[0] not in done]

    with cf.ThreadPoolExecutor(nproc) as ex:
        for fut in [ex.submit(run_shard, i) for i in range(nproc)]:
            fut.result()
    return traces


# -- trace validation --

def validate(ctx, mod, traces, label="", timeout=800):
    """Validate traces with TLC, return rejections"""
    module = getattr(mod, "TRACE", f"Trace_{ctx.prop}")
    cfg = getattr(mod, "TRACE_CFG", "Trace.cfg")
    idx = [i for i, t in enumerate(traces) if not is_failed(t)]
    lines = {}
    for i in idx:
        t = {k: v for k, v in traces[i].items() if k not in ("error", "exc", "escapes", "info", "tb", "hang")}
        check_json(t, f"trace[{i}]")
        lines[i] = json.dumps(t)
    total = sum(len(v) for v in lines.values())
    nshards = max(1, min(NPROC, len(idx) // 40 + 1, int(total / 200000) + 2))
    shards = [idx[k::nshards] for k in range(nshards)]
    rejects = []

    def one(k):
        path = os.path.join(ctx.work, f"cases{label}-{k}.ndjson")
        with open(path, "w") as f:
            for i in shards[k]:
                f.write(lines[i] + "\n")
        return k, tlc.validate(module, cfg, path, len(shards[k]), ctx.work, timeout=timeout)

    with cf.ThreadPoolExecutor(nshards) as ex:
        for k, (rej, states, trans) in ex.map(one, [k for k in range(nshards) if shards[k]]):
            ctx.states += states
            ctx.transitions += trans
            for r in rej:
                r["case"] = shards[k][r["case"]]
                rejects.append(r)
    return rejects


def is_failed(t):
    return t["ev"] and t["ev"][-1].get("op") == "observation-failed"


# -- verdict --

def tobytes(x):
    """Cases may hold bytes"""
    if isinstance(x, (bytes, bytearray)):
        return {"__hex": x.hex()}
    raise TypeError(type(x).__name__)


def unbytes(d):
    return bytes.fromhex(d["__hex"]) if len(d) == 1 and "__hex" in d else d


def load_known():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def fingerprint(mod, case, trace, rej):
    fn = getattr(mod, "fingerprint", None)
    if fn is not None:
        return fn(case, trace, rej)
    return ",".join(rej["clauses"])


def shorten(x, n=1200):
    s = json.dumps(x, default=tobytes)
    return x if len(s) <= n else s[:n] + "..."


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--worker":
        worker_main(sys.argv[2:])
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--limit", type=int)
    ap.add_argument("--no-design", action="store_true")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    prop = args.prop.upper()
    mod = importlib.import_module(f"props.{prop.lower()}")
    work = tempfile.mkdtemp(prefix=f"cdtbv-{prop}-")
    os.chmod(work, 0o755)
    t0 = time.time()
    try:
        ctx = Ctx(prop, args.tier, seed, work)
        return check(ctx, mod, args, t0)
    except tlc.TlcError as e:
        print(f"ERROR {prop}: {e}", file=sys.stderr)
        return 3
    finally:
        if args.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def check(ctx, mod, args, t0):
    prop = ctx.prop
    if args.replay:
        with open(args.replay) as f:
            cases = [json.load(f, object_hook=unbytes)["case"]]
        designs = []
    else:
        designs = [] if args.no_design else list(mod.designs(ctx)) if hasattr(mod, "designs") else []
    with cf.ThreadPoolExecutor(3) as ex:
        futs = [ex.submit(ctx.design, m, c, **kw) for m, c, kw in designs]
        if not args.replay:
            cases = list(mod.cases(ctx))
            if args.limit:
                cases = cases[:args.limit]
        tg = time.time()
        traces = execute(prop, cases, ctx.work, getattr(mod, "CASE_TIMEOUT", 20))
        te = time.time()
        cases = [c for c, t in zip(cases, traces) if t is not None]
        traces = [t for t in traces if t is not None]
        rejects = validate(ctx, mod, traces)
        tv = time.time()
        for fut in futs:
            fut.result()
    for i, t in enumerate(traces):
        if is_failed(t):
            rejects.append({"case": i, "at": len(t["ev"]), "clauses": ["observation-failed:" + t.get("exc", "?")]})
        elif t.get("hang"):
            rejects.append({"case": i, "at": len(t["ev"]), "clauses": ["hang"]})
        elif t.get("escapes"):
            rejects.append({"case": i, "at": len(t["ev"]), "clauses": ["escape"]})
    rejects.sort(key=lambda r: r["case"])
    if args.v:
        print(f"{prop}: {len(cases)} cases, generate {tg-t0:.1f}s execute {te-tg:.1f}s validate {tv-te:.1f}s; "
              f"{len(rejects)} rejected; states {ctx.states}")

    known = [k for k in load_known() if k["property"] == prop and k.get("status", "open") == "open"]
    hit, violations = {}, []
    for r in rejects:
        fp = fingerprint(mod, cases[r["case"]], traces[r["case"]], r)
        r["fingerprint"] = fp
        for k in known:
            if k["fingerprint"] == fp:
                hit[k["fingerprint"]] = k
                break
        else:
            violations.append(r)

    # evidence
    distinct = set()
    for c, t in zip(cases, traces):
        nt = mod.nontrivial(c, t) if hasattr(mod, "nontrivial") else len(t["ev"]) > 0
        if nt:
            distinct.add(hashlib.sha1(json.dumps([c, t.get("ev")], sort_keys=True, default=tobytes).encode()).digest())
    level = mod.LEVEL
    cov = {}
    if level == "model_checking":
        cov.update(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=len(traces))
    else:
        cov.update(evaluations=len(traces), states=ctx.states, transitions=ctx.transitions)
    cov["distinct_nontrivial"] = len(distinct)
    cov["rule"] = mod.RULE
    cov["events"] = sum(len(t["ev"]) for t in traces)
    cov["spec_runs"] = ctx.spec_runs
    step = max(1, len(cases) // 3)
    cov["samples"] = [{"case": shorten(cases[i]), "trace": shorten(traces[i]["ev"])} for i in range(0, len(cases), step)][:3]
    if hasattr(mod, "extra_coverage"):
        cov.update(mod.extra_coverage(cases, traces))
    ev = {
        "property": prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    if not args.replay:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=tobytes)

    for k in hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if not violations:
        print(f"OK property={prop} cases={len(cases)} states={ctx.states} wall={ev['wall_s']}s")
        return 0
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    shown = set()
    for r in violations:
        if r["fingerprint"] in shown and len(shown) >= 1:
            continue
        shown.add(r["fingerprint"])
        if len(shown) > 8:
            break
        case, trace = cases[r["case"]], traces[r["case"]]
        name = f"{prop}-{hashlib.sha1(json.dumps(case, sort_keys=True, default=tobytes).encode()).hexdigest()[:12]}.json"
        path = os.path.join(ROOT, "replays", name)
        ev_at = trace["ev"][r["at"] - 1] if 0 < r["at"] <= len(trace["ev"]) else None
        with open(path, "w") as f:
            json.dump({"property": prop, "case": case, "clauses": r["clauses"], "at": r["at"], "event": ev_at,
                       "trace": trace, "how": f"python3 /verif/check.py {prop} --replay {path}"}, f, indent=1, default=tobytes)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  clauses={r['clauses']} step={r['at']} of case {r['case']}")
        if args.v:
            print("  case:", shorten(case, 3000))
            print("  event:", shorten(ev_at, 3000))
            if trace.get("error"):
                print(trace["error"])
    return 1


if __name__ == "__main__":
    sys.exit(main())
