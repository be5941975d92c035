#!/usr/bin/env python3
"""catch.py [--spec=SPEC.py] [id...]: run the check of each planted bug's property (or --all-checks) against a scratch copy with the bug."""
import json, os, runpy, shutil, subprocess, sys, tempfile

VERIF = "/verif"
spec = [a[7:] for a in sys.argv if a.startswith("--spec=")]
bugs = {b["id"]: b for b in runpy.run_path(spec[0])["BUGS"]} if spec else {}
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or list(bugs) or sorted(os.listdir(f"{VERIF}/seeded"))
base = tempfile.mkdtemp(prefix="catch-", dir="/tmp")
copy = os.path.join(base, "repo")
subprocess.run(["cp", "-a", "/repo", copy], check=True)
missed = []
for i in ids:
    d = f"{VERIF}/seeded/{i}"
    subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
    if bugs:
        prop, f = bugs[i]["property"], os.path.join(copy, bugs[i]["file"])
        text = open(f).read()
        for old, new in bugs[i]["edits"]:
            if text.count(old) != 1:
                print(i, "EDIT does not match once", repr(old[:60]))
            text = text.replace(old, new)
        open(f, "w").write(text)
    else:
        prop = json.load(open(f"{d}/meta.json"))["property"]
        subprocess.run(["git", "-C", copy, "apply", f"{d}/patch.diff"], check=True)
    env = dict(os.environ, CONJ_REPO=copy)
    props = [prop]
    if "--all-checks" in sys.argv:
        props = [f"C{k:02d}" for k in range(1, 26) if os.path.exists(f"{VERIF}/mc/checks/c{k:02d}.py")]
    for p in props:
        r = subprocess.run([f"{VERIF}/check.py", p], env=env, capture_output=True, text=True)
        hit = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
        if p == prop or hit:
            print(i, p, "CAUGHT" if hit else f"missed (exit {r.returncode})", "|", (r.stdout.splitlines() or [""])[0][-60:])
            if hit:
                print("     ", [l for l in r.stdout.splitlines() if l.startswith("  ")][:1])
        if p == prop and not hit:
            missed.append(i)
        sys.stdout.flush()
shutil.rmtree(base)
print("missed:", missed)
