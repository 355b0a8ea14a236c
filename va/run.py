"""Runs decision-table cases in parallel over one dump of the program."""
import functools, os, sys, time, traceback, signal
import multiprocessing as mp
from .prog import Prog
from .spec import *
from .values import show, Diverge, phi_alts
from .engine import Limit
from . import cases as C
from . import props as PR
from . import term, absstr

_progs = {}


def has_top(v, depth=0):
    if not isinstance(v, tuple) or depth > 200:
        return False
    if v and v[0] == "top":
        return True
    return any(has_top(x, depth + 1) for x in v if isinstance(x, tuple))


def mentions(v, names, depth=0):
    if not isinstance(v, tuple) or depth > 200:
        return False
    if len(v) > 1 and v[0] == "app" and isinstance(v[1], str) and (v[1] in names or v[1].rsplit(":", 1)[0] in names):
        return True
    return any(mentions(x, names, depth + 1) for x in v if isinstance(x, tuple))


def names_in(v, names, depth=0):
    if not isinstance(v, tuple) or depth > 200:
        return False
    return len(v) > 1 and v[0] == "sym" and v[1] in names or any(names_in(x, names, depth + 1) for x in v if isinstance(x, tuple))


INST = ("length",)
MOST = 420  # seconds for all cells of a check; what is not decided by then stays open
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
MORE = [1, 3, 17, 70]
CONSTS = {}


class Timeout(Exception):
    pass


def alarm(sig, fr):
    raise Timeout()


def evaluate(c, preset, deadline):
    """one analysis of a cell under the assumptions of preset: (diffs, reason for no verdict, kit)"""
    k = Kit(program(c.prog))
    k.e.link = _progs.get("lib") if c.prog == "bin" else None
    k.sc.facts.update((t, v) for t, v in preset.items() if t != INST)
    k.inst = preset.get(INST)
    absstr.CHOSEN.clear()
    absstr.OPEN.clear()
    absstr.CHOSEN.update((t[1], c) for t, c in preset.items() if t[0] == "class of")
    why = None
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(max(1, int(deadline - time.time()) + 1))
    try:
        ds = c.fn(k)
    except Diverge:
        ds = [Diff((), ("app", "abort", ()), ("app", "a result", ()))]
    except Missing as e:
        ds, why = [], "missing: %s" % e
    except Limit as e:
        ds, why = [], "limit: %s" % e
    except Timeout:
        ds, why = [], "time"
    except RecursionError:
        ds, why = [], "recursion"
    except Exception as e:
        ds, why = [], "internal: " + "".join(traceback.format_exc().splitlines(True)[-3:])
    finally:
        signal.alarm(0)
    if ds and why is None:
        if k.e.unmodelled:
            why = "unmodelled: " + ", ".join(sorted(k.e.unmodelled))
        elif any(isinstance(d, Diff) and has_top(d.got) for d in ds):
            why = "no abstract value: " + repr(ds[0])[:300]
        elif k.e.correlated and all(isinstance(d, Diff) and d.got[0] == "phi" and not callable(d.want) and d.want in phi_alts(d.got) for d in ds):
            why = "alternatives that a comparison does not tell apart"
        elif k.e.blind and all(isinstance(d, Diff) and loose(d.got) for d in ds):
            why = "a condition of which nothing is known: " + repr(k.e.blind)[:200]
        elif k.p.open_extras and (any(names_in(t, k.p.open_extras) for t in k.e.undecided) or any(
                isinstance(d, Diff) and names_in(d.got, k.p.open_extras) for d in ds)):
            why = "an extra argument of a recursive function"
        else:
            # nothing is known of what a recursive function does that the tables do not speak of
            own = {c[0] for c in k.e.cut_log} - k.e.anchors - {f["id"] for f in map(k.p.fn, C.RECURSIVE) if f}
            short = {n.rsplit("::", 1)[-1] for n in own}
            if own and any(isinstance(d, Diff) and not mentions(d.want, own) and (mentions(d.got, own) or any(
                    isinstance(x, str) and x.split(" ")[0].split(":")[0] in short for x in d.path)) for d in ds):
                why = "recursion of " + ", ".join(sorted(own))
    return ds, why, k


def loose(v):
    """may this value be several"""
    return repr(v).find("'?'") >= 0 or repr(v).find("'phi'") >= 0


def splits(k, preset):
    """boolean parts of the input on which the analysis branched without knowing them"""
    out = []
    for t in k.e.undecided:
        if t in preset or not is_term(t):
            continue
        bt = k.e.ptype(t)
        if (bt is not None and bt["k"] == "bool") or (t[0] == "app" and t[1] in ("eq", "lt", "le", "gt", "ge", "str.is_empty", "contains")):
            out.append(t)
    for t in k.e.undecided:
        # an opaque option: there or not
        if t not in preset and is_term(t) and t[0] in ("sym", "proj"):
            bt = k.e.ptype(t)
            if bt is not None and bt["k"] == "adt" and bt["path"] == "core::option::Option":
                out.append(t)
    for t in sorted(k.e.undecided, key=lambda t: -k.e.undecided[t]):
        # a part of the schema of any kind
        if t not in preset and is_term(t) and t[0] == "proj" and t[2] == ("f", None, 0):
            bt = k.e.ptype(t)
            if bt is not None and bt["k"] == "adt" and bt["path"] == "jst::ast::Type":
                out.append(("kind of", t, tuple(range(len(bt["variants"])))))
    return [("class of", n, cs) for n, cs in absstr.OPEN.items()] + out


def refine(c, ds, why, ks, preset, budget, deadline):
    """case distinction on undecided booleans and characters: the cases together cover the cell"""
    if not ds and why is None:
        return ds, why, ks
    if why is not None and why.startswith(("missing", "internal", "time", "recursion")):
        return ds, why, ks
    for t in splits(ks[0], preset)[:4]:
        if budget[0] < 2 or time.time() > deadline:
            break
        best, kits = None, []
        for val in t[2] if t[0] in ("class of", "kind of") else (1, 0):
            budget[0] -= 1
            p2 = dict(preset)
            p2[t if t[0] != "kind of" else t[1]] = val
            r = evaluate(c, p2, deadline)
            r = refine(c, r[0], r[1], [r[2]], p2, budget, deadline)
            if r[0] or r[1] is not None:
                best = r
                break
            kits += r[2]
        if best is None:
            return [], None, kits
        if why is not None and best[0] and best[1] is None and t[0] in ("sym", "proj"):
            # some inputs of the cell deviate, whatever happens to the others
            return best[0], None, best[2]
        if why is None and best[1] is None and budget[0] >= 2 and len(best[0]) < len(ds):
            continue
    return ds, why, ks


def small_consts(p, fid):
    if fid not in CONSTS:
        out = set()

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "int" and isinstance(x.get("v"), int) and 4 < x["v"] < 1100 and (p.types[x["ty"]] or {}).get("s") in ("usize", "u32", "i32", "u64"):
                    out.add(x["v"])
                for v in x.values():
                    walk(v)
            elif isinstance(x, (list, tuple)):
                for v in x:
                    walk(v)
        walk(p.fns[fid])
        CONSTS[fid] = out
    return CONSTS[fid]


def lengths(k):
    """numbers of elements: beyond the constants of the analysed code, and a few others"""
    ns = set()
    for f in k.e.fns_seen:
        if f in k.p.fns and "jst::" in f:
            ns |= small_consts(k.p, f)
    return ([max(ns) + 1] if ns else []) + [5, 0, 2]


def instances(c, ds, why, ks, deadline):
    """an undecided cell: its inputs whose lists have a given number of elements, one number after the other"""
    for n in lengths(ks[0]) + (MORE if THOROUGH else []):
        if time.time() > deadline:
            break
        r = evaluate(c, {INST: n}, deadline)
        r = refine(c, r[0], r[1], [r[2]], {INST: n}, [20], deadline)
        if r[0] and r[1] is None:
            return r
    return ds, why, ks


SHORT, LONG = (8, 4, 7), (60, 20, 40)


def run_case(i, limits=LONG, stop=None):
    """(index, verdict, diffs, unmodelled, functions, seconds)"""
    c = C.CASES[i]
    t0 = time.time()
    if stop is not None and t0 > stop:
        return i, "undecided", [], "out of time", [], 0, 0
    out = []
    ds, why, k = evaluate(c, {}, t0 + limits[0])
    ks = [k]
    if ds or why:
        ds, why, ks = refine(c, ds, why, ks, {}, [40], t0 + limits[1])
        if why and not why.startswith(("missing", "internal")):
            ds, why, ks = instances(c, ds, why, ks, t0 + limits[2])
    elif THOROUGH:
        # the same cell again with lists of given lengths: the general answer must agree with each of them
        ds, why, ks = instances(c, ds, why, ks, t0 + 120)
    term_ok, bad = 0, []
    for kind, fid in sorted({(e[0], e[1]) for q in ks for e in q.e.events}):
        if kind in ("endless loop", "endless recursion"):
            bad.append(("termination", "%s in %s" % (kind, fid), "an end", ["C25"]))
    for root, fid, what in dict.fromkeys(x for q in ks for x in q.partial):
        bad.append(("abort", "%s aborts for some inputs of this shape (%s)" % (fid, " ".join(map(str, what)) if isinstance(what, tuple) else what), "no abort", ["C26"] if c.prog == "lib" else ["C04"]))
    for rid, callee, v2, raw in (x for q in ks for x in term.obligations(q.e)):
        if v2 == "smaller":
            term_ok += 1
        elif v2 == "not smaller":
            bad.append(("termination", "%s calls %s on %s" % (rid, callee, ", ".join(show(x)[:300] for x in raw)), "a recursive call on less than the input", ["C25"]))
    for d in ds:
        if isinstance(d, Diff):
            props = sorted(PR.classify(c, d))
            out.append((" / ".join(map(str, d.path)) or "value", show(d.got)[:1500], show(d.want)[:1500], props))
        else:
            out.append(("value", str(d)[:500], "", sorted(PR.classify(c, Diff((), ("sym", "?"), ("sym", "?"))))))
    if bad and (why is None or not why.startswith(("unmodelled", "internal", "missing"))):
        out, why = (out if why is None else []) + bad, None
    v = "undecided" if why else "differs" if out else "holds"
    return i, v, out, why, sorted(set().union(k.e.fns_seen, *(q.e.fns_seen for q in ks))), time.time() - t0, term_ok


def init(paths, kinds=("lib",)):
    sys.setrecursionlimit(20000)
    _progs.clear()
    CONSTS.clear()
    for n in kinds:
        _progs[n] = Prog(paths[n])


def program(n):
    return _progs[n]


def run_cases(dump, idx, jobs=None):
    jobs = jobs or min(8, os.cpu_count() or 1)
    kinds = sorted({C.CASES[i].prog for i in idx} | {"lib"})
    if len(idx) < 8 or jobs == 1:
        init(dump, kinds)
        return [run_case(i) for i in idx]
    init(dump, kinds)
    ctx = mp.get_context("fork")
    stop = time.time() + MOST
    with ctx.Pool(jobs) as pool:
        rs = list(pool.imap_unordered(functools.partial(run_case, limits=SHORT, stop=stop), idx, chunksize=max(1, min(16, len(idx) // (jobs * 4)))))
        # cells that ran out of time once more, with more of it
        slow = [r[0] for r in rs if r[1] == "undecided" and r[5] > 3]
        if slow:
            again = {r[0]: r for r in pool.imap_unordered(functools.partial(run_case, stop=stop), slow, chunksize=1)}
            rs = [again[r[0]] if r[0] in again and again[r[0]][3] != "out of time" else r for r in rs]
        return rs
