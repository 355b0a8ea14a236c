#!/usr/bin/env python3
"""Runs the check of each planted bug's property (or, with --all, every check) on a patched scratch copy."""
import json, os, subprocess, sys, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
W = "/tmp/seedrun"
for d in sorted(glob.glob(V + "/seeded/*/")):
    i = os.path.basename(d.rstrip("/"))
    if ids and not any(i.startswith(x) for x in ids):
        continue
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.run("git -C /repo archive HEAD | tar x -C " + W, shell=True, check=True)
    subprocess.run(["git", "init", "-q"], cwd=W)
    r = subprocess.run(["git", "apply", d + "patch.diff"], cwd=W, capture_output=True, text=True)
    if r.returncode:
        print(i, "PATCH FAILS", r.stderr)
        continue
    dump = "/tmp/seedrun.dump"
    shutil.rmtree(dump, ignore_errors=True)
    r = subprocess.run([V + "/tools/dump.sh", dump, W], capture_output=True, text=True)
    if r.returncode:
        print(i, "DUMP FAILS", r.stderr[-500:])
        continue
    prop = json.load(open(d + "meta.json"))["property"]
    if prop == "C29" or "--all" in sys.argv:
        subprocess.run([V + "/tools/dump.sh", dump + "/oniguruma", W], capture_output=True, env=dict(os.environ, MIRDUMP_FEATURES="oniguruma"))
    props = [prop]
    if "--all" in sys.argv:
        props = sorted({c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]})
    hit, own = [], None
    for p in props:
        r = subprocess.run([V + "/check", p], capture_output=True, text=True, env=dict(os.environ, VERIF_DUMP=dump))
        if r.returncode == 1:
            hit.append(p)
        if p == prop:
            own = r
    ok = own.returncode == 1
    print(i, prop, "CAUGHT" if ok else "MISSED rc=%d" % own.returncode, " ".join(x for x in hit if x != prop))
    if not ok or "-v" in sys.argv or "--v" in sys.argv:
        print("    ", (own.stdout + own.stderr)[-900:])
    sys.stdout.flush()
shutil.rmtree(W, ignore_errors=True)
