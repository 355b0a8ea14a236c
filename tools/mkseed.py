#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the specs in tools/seeds.py and validates each in a scratch copy of /repo.
   mkseed.py [id ...]   (all when none given; --missing: only those without a folder)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedm"
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS
import seeds2

DEMO_SH = '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'
DEMO_PY = '''"""Runs the built program (or library) on the inputs of cases.json; fails when an output is not the expected one."""
import glob, json, os, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
exe = os.path.abspath("target/debug/jsonschema-transpiler")
bad = 0


def library(d):
    """builds run.rs against the built library"""
    exe = os.path.join(d, "run")
    libs = sorted(glob.glob("target/debug/deps/libjst-*.rlib"), key=os.path.getmtime, reverse=True)
    for j, s in [(j, s) for j in libs for s in sorted(glob.glob("target/debug/deps/libserde_json-*.rlib"))]:
        p = subprocess.run(["rustc", "+stable", "--edition", "2021", "-L", "dependency=target/debug/deps", "--extern", "jst=" + j,
                            "--extern", "serde_json=" + s, "-o", exe, os.path.join(here, "run.rs")], capture_output=True, text=True)
        if p.returncode == 0:
            return exe
    sys.exit("run.rs does not build: " + p.stderr[-1000:])


def casing(names, d):
    """snake_case of the names under the two builds of the library made last: without and with the oniguruma feature"""
    outs = []
    for j in sorted(glob.glob("target/debug/deps/libjst-*.rlib"), key=os.path.getmtime, reverse=True)[:2]:
        exe = os.path.join(d, "casing")
        p = subprocess.run(["rustc", "+stable", "--edition", "2021", "-L", "dependency=target/debug/deps", "--extern", "jst=" + j, "-o", exe, os.path.join(here, "casing.rs")], capture_output=True, text=True)
        if p.returncode:
            sys.exit("casing.rs does not build: " + p.stderr[-1000:])
        p = subprocess.run([exe], input="\\n".join(names), capture_output=True, text=True, timeout=120)
        outs.append(p.stdout.splitlines() if p.returncode == 0 else [])
    return outs


for c in json.load(open(os.path.join(here, "cases.json"))):
    for _ in range(c.get("repeat", 1)):
        with tempfile.TemporaryDirectory() as d:
            if "casing" in c:
                for o in casing(list(c["casing"]), d):
                    if o != list(c["casing"].values()):
                        bad += 1
                        print("unexpected names", o, "for", c["casing"])
                continue
            if "lib" in c:
                p = subprocess.run([library(d)], input=json.dumps(c["lib"]), capture_output=True, text=True, timeout=120)
                if p.returncode or json.loads(p.stdout) != c["out"]:
                    bad += 1
                    print("unexpected result for", json.dumps(c)[:600], "\\n" + p.stdout[:2000], p.stderr[-600:])
                    break
                continue
            env = {k: v for k, v in os.environ.items() if k not in ("RUST_LOG", "RUST_BACKTRACE")}
            env.update(c.get("env", {}))
            data = c["raw"] if "raw" in c else json.dumps(c["schema"])
            args = list(c["args"])
            if c.get("file"):
                with open(os.path.join(d, "in.json"), "w") as f:
                    f.write(data)
                args.append("in.json")
                data = "null"
            p = subprocess.run([exe] + args, input=data, capture_output=True, text=True, cwd=d, env=env, timeout=120)
            ok = (p.returncode == 0) == c["ok"]
            if ok and c["ok"]:
                try:
                    ok = json.loads(p.stdout) == c["out"]
                except ValueError:
                    ok = False
            elif ok:
                ok = p.stdout == ""
            if not ok:
                bad += 1
                print("unexpected result for", json.dumps(c)[:600], "\\nexit", p.returncode, "\\n" + p.stdout[:2000], p.stderr[-600:])
                break
sys.exit(1 if bad else 0)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def setup():
    if not os.path.isdir(W):
        sh("cp -a /repo %s" % W)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q --force FETCH_HEAD" % (W, W))
    sh("git -C %s checkout -q -- ." % W)
    env = open("/opt/vp/env.sh").read().replace("/repo", W).replace("/opt/vp/state", "/tmp/seedm.state")
    os.makedirs("/tmp/seedm.bin", exist_ok=True)
    open("/tmp/seedm.bin/env.sh", "w").write(env)
    for n in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + n).read().replace("/opt/vp/env.sh", "/tmp/seedm.bin/env.sh").replace("/opt/vp/state", "/tmp/seedm.state")
        open("/tmp/seedm.bin/" + n, "w").write(t)


def build():
    r = sh("bash /tmp/seedm.bin/build.sh")
    return r.returncode == 0, r.stdout + r.stderr


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    todo = [s for s in SEEDS if (not ids or s["id"] in ids) and not ("--missing" in sys.argv and os.path.exists(os.path.join(V, "seeded", s["id"], "patch.diff")))]
    setup()
    ok, o = build()
    assert ok, o
    exe = W + "/target/debug/jsonschema-transpiler"
    shutil.copy(exe, "/tmp/seedm.bin/base")
    import glob
    libs = sorted(glob.glob(W + "/target/debug/deps/libjst-*.rlib"), key=os.path.getmtime, reverse=True)
    for j, s in [(j, s) for j in libs for s in sorted(glob.glob(W + "/target/debug/deps/libserde_json-*.rlib"))]:
        r = sh("rustc +stable --edition 2021 -L dependency=%s/target/debug/deps --extern jst=%s --extern serde_json=%s -o /tmp/seedm.bin/run_base %s/tools/seedrun.rs" % (W, j, s, V))
        if r.returncode == 0:
            break
    assert r.returncode == 0, r.stderr
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    base = "44e8911"
    for s in todo:
        d = os.path.join(V, "seeded", s["id"])
        msgs = []
        cases = []
        for c in s["demo"]:
            c = dict(c)
            if "casing" in c:
                cases.append(c)
                continue
            if "lib" in c:
                p = subprocess.run(["/tmp/seedm.bin/run_base"], input=json.dumps(c["lib"]), capture_output=True, text=True)
                c["out"] = json.loads(p.stdout)
                cases.append(c)
                continue
            data = c["raw"] if "raw" in c else json.dumps(c["schema"])
            env = {k: v for k, v in os.environ.items() if k not in ("RUST_LOG", "RUST_BACKTRACE")}
            env.update(c.get("env", {}))
            p = subprocess.run(["/tmp/seedm.bin/base"] + c["args"], input=data, capture_output=True, text=True, env=env)
            c["ok"] = p.returncode == 0
            if c["ok"]:
                c["out"] = json.loads(p.stdout)
            cases.append(c)
        sh("git -C %s checkout -q -- ." % W)
        for f, old, new in s["edits"]:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1:
                msgs.append("edit matches %d times: %r" % (t.count(old), old[:60]))
                continue
            open(p, "w").write(t.replace(old, new))
        # fmt: keep
        diff = sh("git -C %s diff -- src" % W).stdout
        # changed lines must be original
        fixl = 0
        origl = 0
        for f in {e[0] for e in s["edits"]}:
            bl = sh("git -C %s blame -s HEAD -- %s" % (W, f)).stdout.splitlines()
            hs = sh("git -C %s diff -U0 -- %s" % (W, f)).stdout.splitlines()
            for h in hs:
                if h.startswith("@@"):
                    a = h.split()[1][1:].split(",")
                    st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for i in range(st, st + n):
                        if bl[i - 1].startswith("^" + base[:6]) or bl[i - 1].startswith(base[:7]):
                            origl += 1
                        else:
                            fixl += 1
        if not msgs:
            ok, o = build()
            if not ok:
                msgs.append("does not build: " + "\n".join(l for l in o.splitlines() if "error" in l)[:600])
            else:
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                open(d + "/demo.sh", "w").write(DEMO_SH)
                os.chmod(d + "/demo.sh", 0o755)
                open(d + "/demo.py", "w").write(DEMO_PY)
                if any("casing" in c for c in cases):
                    shutil.copy(V + "/tools/casingrun.rs", d + "/casing.rs")
                if any("lib" in c for c in cases):
                    shutil.copy(V + "/tools/seedrun.rs", d + "/run.rs")
                json.dump(cases, open(d + "/cases.json", "w"), indent=1)
                r = sh("bash %s/demo.sh" % d, cwd=W)
                if r.returncode == 0:
                    msgs.append("demo does not fail")
                sh("bash /tmp/seedm.bin/test.sh /tmp/seedm.bin/out.json")
                try:
                    res = json.load(open("/tmp/seedm.bin/out.json"))
                    passed = {k for k, v in res.items() if v in ("passed", "pass", "ok", True)} if not isinstance(res.get("passed"), list) else set(res["passed"])
                    miss = stable - passed
                    if miss:
                        msgs.append("tests fail: %s" % sorted(miss)[:4])
                except Exception as e:
                    msgs.append("tests: %r" % e)
        if not origl:
            msgs.append("no original line changed (%d of fixes)" % fixl)
        if msgs:
            shutil.rmtree(d, ignore_errors=True)
            print(s["id"], "REJECTED", msgs)
            continue
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        # the demo passes on the unchanged tree
        sh("git -C %s checkout -q -- ." % W)
        print(s["id"], "kept", "orig=%d fix=%d" % (origl, fixl))
    sh("git -C %s checkout -q -- ." % W)
    ok, o = build()
    for s in todo:
        d = os.path.join(V, "seeded", s["id"])
        if os.path.isdir(d):
            r = sh("bash %s/demo.sh" % d, cwd=W)
            if r.returncode != 0:
                print(s["id"], "DEMO FAILS ON THE UNCHANGED TREE", r.stdout[:500])


main()
