#!/usr/bin/env python3
"""plant.py <file.py> [--full]: confirm a planted bug in a scratch copy and keep it under seeded/.
The file defines ID, PROP, EDITS = [(path, old, new)], DEMO (python), NEEDS, BREAKS."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID, PROP = ns["ID"], ns["PROP"]
work = f"/tmp/pl_{ID}"
shutil.rmtree(work, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", work])
out = os.path.join(V, "seeded", ID)
os.makedirs(out, exist_ok=True)
open(out + "/demo.sh", "w").write('''#!/bin/bash
# run from the root of the source tree
here=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"
export MPLCONFIGDIR=$(mktemp -d)
/opt/venv/bin/python -W ignore "$here/demo.py"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
''')
os.chmod(out + "/demo.sh", 0o755)
open(out + "/demo.py", "w").write(ns["DEMO"].lstrip())
json.dump({"property": PROP, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)


def demo():
    r = subprocess.run(["bash", out + "/demo.sh"], cwd=work, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-600:]


ok = True
rc, o = demo()
print("demo on the unchanged tree:", rc, "" if rc == 0 else o)
ok &= rc == 0
for p, a, b in ns["EDITS"]:
    f = os.path.join(work, "fixedIncome/src", p)
    t = open(f).read()
    assert t.count(a) == 1, (p, t.count(a), a)
    open(f, "w").write(t.replace(a, b))
open(out + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=work, text=True))
for x in open(out + "/patch.diff").read().splitlines():      # only lines of the original repository are changed
    if x.startswith("--- a/"):
        orig = subprocess.run(["git", "-C", "/repo", "show", "61146cf:" + x[6:]], capture_output=True, text=True).stdout.splitlines()
    elif x.startswith("-") and x[1:].strip() and x[1:] not in orig:
        print("NOT ORIGINAL:", x)
        ok = False
rc, o = demo()
print("demo with the change:", rc, o.strip().splitlines()[-1:] )
ok &= rc != 0
t = subprocess.run(["bash", "/tmp/qt.sh", work], capture_output=True, text=True).stdout
print("tests:", t or "pass")
ok &= not t.strip()
if "--full" in sys.argv:
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--rootdir=" + work,
                        "fixedIncome/tests/test_curves/test_yield_curve/test_yield_curve.py"], cwd=work, capture_output=True, text=True,
                       env={**os.environ, "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1"})
    print("slow tests:", r.stdout[-200:])
    ok &= r.returncode == 0
r = subprocess.run(["python3", V + "/check.py", PROP, "quick"], cwd=V, capture_output=True, text=True,
                   env={**os.environ, "VERIF_REPO": work, "VERIF_SEED": "1"})
print("CHECK", PROP, "exit", r.returncode, [x[:200] for x in r.stdout.splitlines() if "VIOLATION" in x or "violates" in x][:4], (r.stdout + r.stderr)[-300:] if r.returncode not in (0, 1) else "")
shutil.rmtree(work)
print(ID, "KEPT" if ok else "NOT CONFIRMED", "caught" if r.returncode == 1 else "MISSED")
if not ok:
    shutil.rmtree(out)
