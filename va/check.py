"""check.py PROPERTY: decides one property on /repo's current source.

exit 0: held on everything analysed; exit 1 and a VIOLATION line: broken; exit 2: no verdict."""
import json, os, shutil, subprocess, sys, tempfile, time
sys.setrecursionlimit(20000)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from va import run, cases, props  # noqa: E402
from va.rules import RULES  # noqa: E402
from va.prog import Prog  # noqa: E402


def known():
    """(property, key) of the listed findings; fixed entries suppress nothing"""
    out = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property="):
                prop, key = l[len("known: property="):].split(" ", 1)
                key, _, text = key.partition(" :: ")
                out[prop, key.strip()] = text
    return out


def feature_build(src, work, feature):
    """the library as built with a cargo feature, or None: a build that cannot be made here claims nothing"""
    if not os.environ.get("VERIF_DUMP"):
        src = work
        r = subprocess.run([os.path.join(V, "tools", "dump.sh"), os.path.join(src, feature)], env=dict(os.environ, MIRDUMP_FEATURES=feature))
        if r.returncode != 0:
            return None
    p = os.path.join(src, feature, "jst.lib.json")
    return Prog(p) if os.path.exists(p) else None


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix="va-")
    ev_path = os.path.join(V, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    try:
        src = os.environ.get("VERIF_DUMP")
        if not src:
            src = work
            r = subprocess.run([os.path.join(V, "tools", "dump.sh"), work])
            if r.returncode != 0:
                print("check: the tree could not be analysed (it does not build?)", file=sys.stderr)
                return 2
        t_dump = time.time() - t0
        lib, binp = os.path.join(src, "jst.lib.json"), os.path.join(src, "jsonschema_transpiler.bin.json")
        cov = {}
        viol = []        # (key, text)
        fns = set()
        # decision tables
        idx = [i for i, c in enumerate(cases.CASES) if props.covers(prop, c)]
        res = run.run_cases({"lib": lib, "bin": binp}, idx) if idx else []
        if tier == "thorough" and idx:
            # the other build of the library as well
            o = os.path.join(src, "oniguruma")
            if feature_build(src, work, "oniguruma") is not None and os.path.exists(os.path.join(o, "jsonschema_transpiler.bin.json")):
                res += run.run_cases({"lib": os.path.join(o, "jst.lib.json"), "bin": os.path.join(o, "jsonschema_transpiler.bin.json")}, idx)
                cov["builds"] = ["default", "oniguruma"]
        res.sort(key=lambda x: x[0])
        n = {"holds": 0, "differs": 0, "undecided": 0}
        per, und = {}, []
        rec_calls = 0
        for i, v, out, why, seen, secs, tok in res:
            rec_calls += tok
            c = cases.CASES[i]
            mine = [o for o in out if prop in o[3]]
            verdict = "holds" if v == "differs" and not mine else v
            n[verdict] += 1
            per.setdefault(c.stage, [0, 0, 0])
            per[c.stage][{"holds": 0, "differs": 1, "undecided": 2}[verdict]] += 1
            fns |= set(seen)
            if verdict == "undecided":
                und.append({"case": "%s: %s" % (c.stage, c.name), "why": why})
            if verdict == "differs":
                for o in mine[:1]:
                    viol.append(("%s|%s|%s" % (c.stage, c.name, o[0]),
                                 {"stage": props.STAGES[c.stage], "case": c.name, "at": o[0], "found": o[1], "expected": o[2],
                                  "functions": [f for f in seen if not f.startswith(("core::", "alloc::", "std::", "<core", "<alloc", "<std"))]}))
        if idx:
            cov["decision_table_cells"] = len(res)
            cov["cells_decided"] = n["holds"] + n["differs"]
            cov["cells_undecided"] = n["undecided"]
            if prop == "C25":
                cov["recursive_calls_on_smaller_input"] = rec_calls
            cov["cells_per_stage"] = {s: {"analysed": props.STAGES[s], "hold": p[0], "differ": p[1], "undecided": p[2]} for s, p in per.items()}
            cov["undecided_samples"] = und[:5]
            step = max(1, len(res) // 5)
            cov["samples"] = ["%s: %s -> %s" % (cases.CASES[r[0]].stage, cases.CASES[r[0]].name, r[1]) for r in res[::step][:6]]
        decided = n["holds"] + n["differs"]
        dead = bool(idx) and decided == 0
        # whole-program rules
        for name, fn in RULES.get(prop, ()):
            if getattr(fn, "feature", None):
                r = fn(Prog(lib), Prog(binp), tier, feature_build(src, work, fn.feature))
            else:
                r = fn(Prog(lib), Prog(binp), tier)
            cov["rule: " + name] = r.coverage
            fns |= set(r.functions)
            for key, text in r.violations:
                viol.append((key, {"rule": name, "finding": text}))
            if r.dead:
                dead = True
                print("check: rule %s found nothing to analyse: %s" % (name, r.dead), file=sys.stderr)
        kf = known()
        fresh, listed = [], []
        for k, t in viol:
            (listed if (prop, k) in kf else fresh).append((k, t))
        cov["functions_analysed"] = len(fns)
        cov["crate_functions"] = sorted(f for f in fns if "jst::" in f or f.startswith("jsonschema_transpiler"))[:120]
        cov["explanation"] = ("Static analysis of the type-checked MIR of the current tree. Every cell of a decision table is one abstract input shape "
                              "standing for all concrete inputs of that shape; a forward dataflow fixpoint gives the abstract result, which is compared "
                              "with the table. Cells the abstraction cannot decide are counted as undecided and claim nothing.")
        cov["violating"] = [k for k, _ in fresh[:20]]
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
              "assumptions": ["models of the std, serde_json, regex and heck functions used (va/models.py)", "children of a node are opaque: induction over the depth of the schema"],
              "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
        with open(ev_path, "w") as f:
            json.dump(ev, f, indent=1)
        for k, t in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        print("%s: %d cells decided, %d undecided, %d functions, rules: %s; dump %.1fs, total %.1fs" % (
            prop, decided, n["undecided"], len(fns), ", ".join(x[0] for x in RULES.get(prop, ())) or "-", t_dump, time.time() - t0))
        if fresh:
            rp = os.path.join(V, "evidence", prop + ".violation.json")
            with open(rp, "w") as f:
                json.dump({"property": prop, "violations": [{"key": k, **t} for k, t in fresh[:50]]}, f, indent=1)
            for k, t in fresh[:5]:
                print("  %s: %s" % (k, json.dumps(t)[:700]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        if dead:
            return 2
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
