"""Running TLC: design checks (exhaustive or simulated) and trace validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(RuntimeError):
    pass


def run_tlc(module, cfg, workdir, env=None, workers=1, simulate=None, depth=None, seed=None,
            timeout=240, heap="2g", coverage=False, extra=()):
    """Run TLC on specs/<module>.tla with specs/<cfg>, return (rc, output)"""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=workdir)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={meta}",
           "-DTLA-Library=" + SPECS, "-cp", JARS, "tlc2.TLC",
           "-config", os.path.join(SPECS, cfg), "-metadir", os.path.join(meta, "states"),
           "-workers", str(workers), "-noGenerateSpecTE", "-nowarning"]
    if simulate is not None:
        cmd += ["-simulate", f"num={simulate}"]
    if depth is not None:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(extra)
    cmd.append(os.path.join(SPECS, module + ".tla"))
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as ex:
        raise TlcError(f"TLC timed out on {module}/{cfg} after {timeout}s") from ex
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


_re_stats = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)
_re_sim = re.compile(r"The number of states generated: (\d+)")


def stats(out):
    m = None
    for m in _re_stats.finditer(out):
        pass
    if m:
        return int(m.group(1)), int(m.group(2))
    m = _re_sim.search(out)
    if m:
        return int(m.group(1)), int(m.group(1))
    return 0, 0


def lines_with(out, prefix):
    """Yield payloads of PrintT'ed strings starting with `prefix`"""
    start = '"' + prefix
    for line in out.splitlines():
        if line.startswith(start) and line.endswith('"'):
            # TLC prints strings with backslash escapes
            yield json.loads(line)[len(prefix):]


def design_check(module, cfg, workdir, **kw):
    """Check the properties of a design spec. Return statistics; raise TlcError if TLC finds anything."""
    rc, out = run_tlc(module, cfg, workdir, **kw)
    if rc != 0:
        raise TlcError(f"design check {module}/{cfg} failed (rc={rc}):\n{out[-6000:]}")
    gen, dist = stats(out)
    return {"module": module, "cfg": cfg, "states": dist, "transitions": gen}


def generate(module, cfg, workdir, prefix="SCENARIO ", **kw):
    """Let TLC generate behaviours of a spec, printed as JSON by the spec"""
    rc, out = run_tlc(module, cfg, workdir, **kw)
    if rc != 0:
        raise TlcError(f"generation {module}/{cfg} failed (rc={rc}):\n{out[-6000:]}")
    gen, dist = stats(out)
    seen, ret = set(), []
    for s in lines_with(out, prefix):
        if s not in seen:
            seen.add(s)
            ret.append(json.loads(s))
    return ret, {"module": module, "cfg": cfg, "states": dist, "transitions": gen, "behaviours": len(ret)}


def validate(module, cfg, cases_path, ncases, workdir, timeout=600, env=None, heap="3g"):
    """Validate recorded traces against a trace spec

    Return (rejections, states, transitions). Rejections are dicts with keys
    case (0-based), at (1-based step) and clauses.
    """
    e = {"VCASES": cases_path}
    e.update(env or {})
    rc, out = run_tlc(module, cfg, workdir, env=e, workers=1, timeout=timeout, heap=heap)
    rejects = []
    for s in lines_with(out, "REJECT "):
        r = json.loads(s)
        r["case"] -= 1
        rejects.append(r)
    accepted = {int(s) for s in lines_with(out, "ACCEPT ")}
    if rc != 0 or len(accepted) + len(rejects) != ncases:
        raise TlcError(f"trace validation {module} gave no complete verdict (rc={rc}, "
                       f"{len(accepted)} accepted + {len(rejects)} rejected of {ncases}):\n{out[:3000]}\n...\n{out[-3000:]}")
    gen, dist = stats(out)
    return rejects, dist, gen
