#!/usr/bin/env python3
"""Development aid: applies behaviour-preserving edits (tools/refactorings*.py) to a scratch copy, analyses each and
reports every property with an alarm, the undecided cells and the rules' findings.
   variants.py [id-prefix ...] [-v] [--test]"""
import glob, importlib, json, os, shutil, subprocess, sys
from collections import Counter
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
B = os.environ.get("VARDIR", "/tmp/var")
W, D = B + "/tree", B + "/dump"

WORK = r'''
import sys; sys.path.insert(0, %r)
sys.setrecursionlimit(20000)
from va import run, cases
from va.rules import RULES
from va.prog import Prog
from collections import Counter
import json
d = sys.argv[1]
L, B = d + '/jst.lib.json', d + '/jsonschema_transpiler.bin.json'
r = run.run_cases({'lib': L, 'bin': B}, list(range(len(cases.CASES))))
out = {'n': dict(Counter(x[1] for x in r)), 'alarms': {}, 'und': {}}
for i, v, o, why, fns, s, _ in sorted(r):
    c = cases.CASES[i]
    if v == 'undecided': out['und'].setdefault(c.stage, []).append((c.name, why[:400]))
    if v == 'differs':
        for x in o:
            for p in (x[3] or ['none']):
                out['alarms'].setdefault(p, []).append((c.stage, c.name, x[0], x[1][:300], x[2][:300]))
for p, rs in RULES.items():
    for n, f in rs:
        if getattr(f, 'feature', None):
            import os
            o = d + '/' + f.feature + '/jst.lib.json'
            q = f(Prog(L), Prog(B), 'quick', Prog(o) if os.path.exists(o) else None)
            for b, x in q.coverage['builds'].items():
                if str(x).startswith('undecided'): out['und'].setdefault('rule ' + n, []).append((b, x))
        else:
            q = f(Prog(L), Prog(B), 'quick')
        for k, t in q.violations: out['alarms'].setdefault(p, []).append(('rule ' + n, k, '', str(t)[:300], ''))
        if q.dead: out['alarms'].setdefault(p, []).append(('rule ' + n, 'DEAD', '', str(q.dead)[:300], ''))
print('@@' + json.dumps(out))
''' % V


def fresh():
    if not os.path.isdir(W):
        os.makedirs(W)
    subprocess.run("git -C /repo archive HEAD | tar x -C " + W, shell=True, check=True)


def apply(edits):
    for f, old, new in edits:
        p = os.path.join(W, f)
        t = open(p).read()
        if old == "$EOF":
            open(p, "w").write(t + new)
            continue
        if t.count(old) != 1:
            return "edit matches %d times: %r" % (t.count(old), old[:80])
        open(p, "w").write(t.replace(old, new))


def analyse(casing=False):
    shutil.rmtree(D, ignore_errors=True)
    r = subprocess.run([V + "/tools/dump.sh", D, W], capture_output=True, text=True)
    if r.returncode:
        return None, "\n".join(l for l in open(V + "/.build/check.log").read().splitlines() if l.startswith("error") or "-->" in l)[:900]
    if casing:
        subprocess.run([V + "/tools/dump.sh", D + "/oniguruma", W], capture_output=True, env=dict(os.environ, MIRDUMP_FEATURES="oniguruma"))
    r = subprocess.run([sys.executable, "-c", WORK, D], capture_output=True, text=True)
    for l in r.stdout.splitlines():
        if l.startswith("@@"):
            return json.loads(l[2:]), None
    return None, r.stderr[-900:]


def report(i, res, err, v):
    if res is None:
        print(i, "ERROR", err)
        return
    al, und = res["alarms"], res["und"]
    print(i, "OK" if not al and not und else "ALARM " + " ".join("%s:%d" % (p, len(x)) for p, x in sorted(al.items())) if al else "undecided", "und=%s" % {s: len(x) for s, x in und.items()} if und else "", flush=True)
    if v:
        for p, x in sorted(al.items())[:6]:
            for y in x[:2]:
                print("    ", p, y)
        why = {}
        for s, x in und.items():
            for n, w in x:
                why.setdefault(w[:160], (s, n, w, [0]))[3][0] += 1
        for w, (s, n, full, c) in sorted(why.items(), key=lambda z: -z[1][3][0])[:4]:
            print("    und %d x %s | %s | %s" % (c[0], s, n, full))


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    specs = []
    for f in sorted(glob.glob(os.path.join(V, "tools", "refactorings*.py"))):
        specs += importlib.import_module(os.path.basename(f)[:-3]).REFACTORINGS
    for i, edits in specs:
        if ids and not any(i.startswith(x) for x in ids):
            continue
        fresh()
        e = apply(edits)
        if e:
            print(i, "BAD EDIT", e)
            continue
        res, err = analyse(any(f == "src/casing.rs" for f, _, _ in edits))
        report(i, res, err, "-v" in sys.argv)
        if "--test" in sys.argv and res is not None:
            for f in ("ast", "avro", "bigquery", "jsonschema", "lib", "main", "casing", "traits"):
                shutil.copy("%s/src/%s.rs" % (W, f), "/tmp/seedw/src/")
            r = subprocess.run("bash /tmp/seedw.bin/build.sh && bash /tmp/seedw.bin/test.sh /tmp/seedw.bin/out.json", shell=True, capture_output=True, text=True)
            o = json.load(open("/tmp/seedw.bin/out.json"))
            passed = {k for k, v in o.items() if v in ("passed", "pass", "ok", True)} if not isinstance(o.get("passed"), list) else set(o["passed"])
            miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed
            print("    tests", "ok" if not miss else "FAIL %d %s" % (len(miss), sorted(miss)[:3]))


if __name__ == "__main__":
    main()
