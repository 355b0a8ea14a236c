"""Stages M and IO: the command-line program, from its argument list to its output."""
import itertools
from .cases import *
from .cases import CASES, Case, CTX, JV
from .world import *
from . import world

MAIN = "jsonschema_transpiler::main"
FLAGS = {"normalize_case": ("-c", "--normalize-case"), "force_nullable": ("-n", "--force-nullable"), "tuple_struct": (None, "--tuple-struct"),
         "allow_maps_without_value": ("-w", "--allow-maps-without-value")}
FILE = ("str", (("t", ("sym", "FILE")),))
FILE = ("sym", "FILE")


class Undecided(Exception):
    pass


def run_main(k, w):
    """(status, standard output) of the program; status: 0, "failure" """
    f = k.fn(MAIN)
    k.e.world = w
    k.st.cells[OUT] = lit("")
    k.sc.rules.append(lambda eng, st, t: False if t[0] == "app" and t[1] == "eq" and FILE in t[2] else None)
    try:
        try:
            r = k.e.deepderef(k.st, k.call(f))
        except Diverge:
            es = w.exits
            if len(es) == 1 and es[0][0] == 0:
                return lit("0"), es[0][1]
            if any(e[0] == 0 or e[0] is None for e in es):
                return ("phi", frozenset([lit("0"), lit("failure")])), (w.prints or [lit("")])[-1]
            out = lit("")
            for v in w.prints:
                out = models.cat([out, v])
            return lit("failure"), out
    except Unknown as e:
        k.e.unmodelled["command line: %s" % e] = 1
        return lit("?"), lit("?")
    out = k.st.cells.get(OUT, lit(""))
    if r[0] == "adt" and r[1] == RES:
        return lit("0" if r[2] == 0 else "failure"), out
    if r == UNIT:
        return (lit("0"), out)
    if r[0] == "phi" or is_term(r):
        return r, out
    return lit("0"), out


def outcome(fmt, k, src, resolve, flags):
    kw = {f: cbool(f in flags) for f in FLAGS}
    ctx = k.struct(CTX, "ctx", resolve_method=k.variant("jst::ResolveMethod", resolve), json_object_path_regex=NONE, **kw)
    v = k.e.app("jst::convert_" + fmt, [k.e.app("parsed", [src]), ctx])
    return v


def main_diff(k, w, got, want):
    """want: the converted value, or None for a failure"""
    status, out = got
    res = []
    for n in w.notes:
        res.append(Diff((n,), ("app", "so", ()), ("app", "not so", ())))
    if want is None:
        if status != lit("failure"):
            res.append(Diff(("exit status",), status, lit("failure")))
        if w.prints:
            res.append(Diff(("standard output",), w.prints[0], lit("")))
        return res
    if status != lit("0"):
        res.append(Diff(("exit status",), status, lit("0")))
        return res
    ss = segs_of(out) if out[0] == "str" else [("t", out)] if is_term(out) else None
    ss = list(ss) if ss is not None else None
    if ss and ss[-1] == ("lit", "\n"):
        ss.pop()
    if ss is None or len(ss) != 1 or ss[0][0] != "t" or ss[0][1][0] != "app" or ss[0][1][1] != "text":
        return res + [Diff(("standard output",), out, k.e.app("text", [want]))]
    v = ss[0][1][2][0]
    if v[0] != "app" or v[1] != want[1]:
        return res + [Diff(("format",), v, want)]
    if v[2][0] != want[2][0]:
        res.append(Diff(("input",), v[2][0], want[2][0]))
    return res + diff(k, v[2][1], want[2][1], ("options",))


def args_of(t, r, flags, short):
    a = []
    if t is not None:
        a += ["-t" if short else "--type", lit(t)]
    if r is not None:
        a += ["-r" if short else "--resolve", lit(r)]
    for f in flags:
        s, l = FLAGS[f]
        a.append(s if short and s else l)
    return a


def m_case(t, r, flags, short, order=False):
    def run(k):
        a = args_of(t, r, flags, short)
        if order:
            # the options in the opposite order, after the file
            groups, i = [], 0
            while i < len(a):
                n = 2 if i + 1 < len(a) and isinstance(a[i + 1], tuple) else 1
                groups.append(a[i:i + n])
                i += n
            a = [FILE] + [x for g in reversed(groups) for x in g]
        w = World(a)
        got = run_main(k, w)
        src = k.e.app("file", [FILE]) if order else STDIN
        return main_diff(k, w, got, outcome(t or "avro", k, src, (r or "cast").capitalize(), flags))
    return run


for _t in (None, "avro", "bigquery"):
    for _r in (None, "cast", "panic", "drop"):
        for _n in range(5):
            for _fl in itertools.combinations(FLAGS, _n):
                for _s in (False, True):
                    _c = Case("M", " ".join(x if isinstance(x, str) else x[1][0][1] for x in args_of(_t, _r, _fl, _s)) or "no options", m_case(_t, _r, _fl, _s))
                    _c.prog = "bin"
                    CASES.append(_c)
                if _n in (0, 4):
                    _c = Case("M", "FILE, then " + " ".join(x if isinstance(x, str) else x[1][0][1] for x in reversed(args_of(_t, _r, _fl, True))), m_case(_t, _r, _fl, True, True))
                    _c.prog = "bin"
                    CASES.append(_c)


def bad_args(a):
    def run(k):
        w = World(a)
        return main_diff(k, w, run_main(k, w), None)
    return run


for _a in (["-t", lit("json")], ["--type", lit("")], ["-r", lit("ignore")], ["-x"], ["--unknown"], ["--type"], ["-t", lit("avro"), "-t", lit("bigquery")], [FILE, ("sym", "FILE2")], ["-r"]):
    _c = Case("IO", "rejected arguments " + " ".join(x if isinstance(x, str) else show(x) for x in _a), bad_args(_a))
    _c.prog = "bin"
    CASES.append(_c)


def io_case(fmt, source, what):
    def run(k):
        a = ([] if fmt == "avro" else ["-t", lit("bigquery")]) + {"none": [], "-": [lit("-")], "file": [FILE]}[source]
        w = World(a, opens=what != "missing", parses={"unreadable": "unreadable", "not JSON": False, "trailing text": "trailing", "empty": "empty"}.get(what, True), converts=what != "rejected")
        got = run_main(k, w)
        if what != "good":
            return main_diff(k, w, got, None)
        return main_diff(k, w, got, outcome(fmt, k, k.e.app("file", [FILE]) if source == "file" else STDIN, "Cast", ()))
    return run


for _f in ("avro", "bigquery"):
    for _s in ("none", "-", "file"):
        for _w in ("good", "unreadable", "not JSON", "trailing text", "empty", "rejected", "missing"):
            if _w == "missing" and _s != "file":
                continue
            _c = Case("IO", "%s from %s, %s" % (_f, {"none": "standard input", "-": "standard input as -", "file": "a file"}[_s], _w), io_case(_f, _s, _w))
            _c.prog = "bin"
            CASES.append(_c)
