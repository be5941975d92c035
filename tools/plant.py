#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: verify planted bugs in a scratch copy and keep them in /verif/seeded/<id>/.

SPEC.py defines BUGS = [dict(id, property, file, edits=[(old, new), ...], needs, breaks, demo)]; demo is a Python program that
exits 0 on the unchanged tree and non-zero with the change."""
import json, os, shutil, subprocess, sys, runpy, tempfile

VERIF = os.environ.get("VERIF_DIR", "/verif")
bugs = runpy.run_path(sys.argv[1])["BUGS"]
want = sys.argv[2:]
base = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
copy = os.path.join(base, "repo")
subprocess.run(["cp", "-a", "/repo", copy], check=True)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
baseline = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()

DEMO_SH = """#!/bin/bash
# exit 0: the property holds; run with cwd at the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$here/demo.py"
"""
for b in bugs:
    if want and b["id"] not in want:
        continue
    subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
    path = os.path.join(copy, b["file"])
    s = open(path).read()
    bad = False
    for old, new in b["edits"]:
        if s.count(old) != 1:
            print(b["id"], "EDIT does not match once:", s.count(old), repr(old[:80]))
            bad = True
            break
        s = s.replace(old, new)
    if bad:
        continue
    d = os.path.join(base, b["id"])
    os.makedirs(d, exist_ok=True)
    # only lines of the original repository may be changed
    blame = subprocess.run(["git", "-C", copy, "blame", "-s", "-l", b["file"]], capture_output=True, text=True).stdout.splitlines()
    mine = set(subprocess.run(["git", "-C", copy, "rev-list", "0aed696..HEAD"], capture_output=True, text=True).stdout.split())
    src = open(path).read()
    old_lines = src.splitlines(True)
    import difflib
    touched = [i for tag, i1, i2, _, _ in difflib.SequenceMatcher(None, old_lines, s.splitlines(True), autojunk=False).get_opcodes() if tag in ("replace", "delete") for i in range(i1, i2)]
    if any(blame[i].split()[0].lstrip("^") in mine for i in touched):
        print(b["id"], "NOTE: changes lines of a fix:", [old_lines[i].strip() for i in touched if blame[i].split()[0] in mine])
        continue
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    run = lambda: subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=copy, env=env, capture_output=True, text=True, timeout=300)
    r0 = run()
    open(path, "w").write(s)
    r1 = run()
    if r0.returncode != 0 or r1.returncode == 0:
        print(b["id"], "DEMO: clean", r0.returncode, "patched", r1.returncode, (r0.stderr or r1.stdout)[-600:])
        continue
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider", "--no-cov", "--timeout=300"],
                       cwd=copy, env=env, capture_output=True, text=True)
    last = t.stdout.strip().splitlines()[-1]
    if t.returncode != 0:
        print(b["id"], "TESTS FAIL", last, [l for l in t.stdout.splitlines() if l.startswith("FAILED")][:3])
        continue
    diff = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True, check=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    out = os.path.join(VERIF, "seeded", b["id"])
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(d, out)
    print(b["id"], "kept;", last)
shutil.rmtree(base)
