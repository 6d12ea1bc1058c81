"""Check that the toolchain is there and that all specifications parse"""
import concurrent.futures as cf
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from vlib.tlc import JARS, SPECS  # noqa: E402

os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)


def parse(name):
    with tempfile.TemporaryDirectory() as tmp:
        p = subprocess.run(["java", f"-Djava.io.tmpdir={tmp}", "-DTLA-Library=" + SPECS, "-cp", JARS, "tla2sany.SANY", os.path.join(SPECS, name)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tmp)
    return name, p.returncode, p.stdout


bad = 0
with cf.ThreadPoolExecutor(8) as ex:
    for name, rc, out in ex.map(parse, sorted(n for n in os.listdir(SPECS) if n.endswith(".tla"))):
        if rc:
            bad += 1
            print(name, "does not parse\n" + out)
print("specifications parsed," if not bad else f"{bad} bad specifications", "setup done")
sys.exit(1 if bad else 0)
