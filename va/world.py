"""The program around the library: command line (clap), input and output, as seen by the analysis of main."""
from .values import *
import re
from . import models

STDIN, STDOUT, STDERR = ("app", "stdin", ()), ("app", "stdout", ()), ("app", "stderr", ())
OUT = ("world", "stdout")
USAGE = 2
HARMLESS = {"help", "long_help", "value_name", "value_names", "help_heading", "display_order", "hide", "hide_default_value", "hide_possible_values", "hide_short_help", "hide_long_help", "hide_env",
            "next_line_help", "value_hint", "visible_alias", "visible_short_alias", "visible_aliases", "ignore_case", "long", "short", "alias", "aliases", "short_alias", "action", "default_value", "required",
            "value_parser", "num_args", "index", "conflicts_with", "conflicts_with_all", "requires", "requires_all", "exclusive", "env", "require_equals", "overrides_with", "overrides_with_all",
            "default_value_t", "group", "allow_hyphen_values", "id", "hide_env_values"}


class Unknown(Exception):
    """a construct of the command line that this model does not cover"""


class World:
    """one run of the program: its argument list, and what goes wrong"""

    def __init__(self, argv, opens=True, parses=True, converts=True):
        self.argv, self.opens, self.parses, self.converts = argv, opens, parses, converts
        self.prints, self.exits, self.notes = [], [], []
        self.matches = {}
        self.cmd = None

    # ---- dispatch
    def call(self, eng, st, c, args, site, dty):
        name = c.get("rname") or c["name"]
        n1 = c["name"]
        h = EXACT.get(n1) or EXACT.get(name)
        if h is None:
            if n1.startswith("clap_builder::"):
                h = clap
            elif n1.startswith("env_logger::"):
                h = logger
            else:
                two = "::".join(n1.rsplit("::", 2)[-2:])
                h = SUFFIX.get(two)
        if h is None:
            return NotImplemented
        return h(self, eng, st, c, args, site, dty)


EXACT, SUFFIX = {}, {}


def on(*names):
    def d(f):
        for n in names:
            (SUFFIX if n.count("::") == 1 and n[0].isupper() else EXACT)[n] = f
        return f
    return d


# ------------------------------------------------------------------ command line
def chain(v):
    """the builder calls of a clap value, innermost first: [(method, args)]"""
    out = []
    while v[0] == "app" and v[1].startswith("clap:"):
        out.append((v[1][5:], v[2]))
        if not v[2]:
            break
        m = v[1].rsplit("::", 1)[-1]
        if m == "new":
            break
        v = v[2][0]
    out.reverse()
    return out


def clap(w, eng, st, c, args, site, dty):
    n = c["name"]
    two = "::".join(n.rsplit("::", 2)[-2:])
    vals = [eng.deepderef(st, a) for a in args]
    if two in ("Parser::parse", "Parser::try_parse"):
        t = eng.p.types[c["targs"][0]]["s"]
        f, g = eng.p.fn("<%s as clap_builder::derive::CommandFactory>::command" % t), eng.p.fn("<%s as clap_builder::derive::FromArgMatches>::from_arg_matches_mut" % t)
        if f is None or g is None:
            return NotImplemented
        cmd = eng.deepderef(st, eng.run(f, [], st))
        w.match(eng, cmd)
        cell = ("world", "matches")
        st.cells[cell] = ("adt", "@matches", 0, ())
        r = eng.deref(st, eng.run(g, [("ref", cell, ())], st))
        if r[0] != "adt" or r[2] != 0:
            if r[0] == "adt":
                w.usage()
            return top("arguments")
        return r if two == "Parser::try_parse" else r[3][0]
    if two in ("Command::get_matches", "Command::try_get_matches"):
        w.match(eng, vals[0])
        m = ("adt", "@matches", 0, ())
        return ok(m) if "try" in two else m
    if two.startswith("ArgMatches::"):
        m = two.split("::")[1]
        i = str_const(vals[1]) if len(vals) > 1 else None
        if i is None:
            raise_unknown(w, two)
        if m in ("remove_one", "get_one"):
            return w.value(eng, st, i, c["targs"][0], site)
        if m == "get_flag":
            r = w.value(eng, st, i, None, site)
            return r[3][0] if r[0] == "adt" and r[2] == 1 else top("flag")
        if m == "contains_id":
            return cbool(i in w.matches)
        if m == "get_count":
            return NotImplemented
        raise_unknown(w, two)
    if two == "ArgAction::takes_values":
        v = vals[0]
        t = eng.adt_info("clap_builder::builder::action::ArgAction")
        return cbool(t["variants"][v[2]]["name"] in ("Set", "Append")) if v[0] == "adt" else top("action")
    if two == "PossibleValue::get_name":
        ch = chain(vals[0])
        return ch[0][1][0] if ch else top("value name")
    if two in ("Error::exit",):
        w.usage()
    if "alue" in two and "arser" in two and not two.startswith("Arg::"):
        # which parser: the type it has
        return eng.app("parser of " + eng.p.types[dty]["s"], vals, dty)
    return eng.app("clap:" + two, vals, dty)


def raise_unknown(w, what):
    raise Unknown(what)


def text(v):
    s = str_const(v)
    if s is None and v[0] == "c" and v[1] == "char":
        s = v[2]
    if s is None and v[0] == "adt" and v[1] == OPT:
        return text(v[3][0]) if v[2] == 1 else None
    if s is None and v[0] == "adt" and len(v[3]) == 1 or v[0] == "app" and len(v[2]) == 1 and (v[1].startswith("into:") or v[1].endswith("Id")):
        return text(v[3][0] if v[0] == "adt" else v[2][0])
    if s is None:
        raise Unknown("a setting that is not a constant: " + show(v)[:80])
    return s


def text_list(v):
    if v[0] == "seq" and all(s[0] == "1" for s in v[1]):
        return [text(s[1]) for s in v[1]]
    return [text(v)]


def variant_name(eng, v):
    t = eng.adt_info(v[1]) if v[0] == "adt" else None
    if t is None:
        raise Unknown("action")
    return t["variants"][v[2]]["name"]


def spec_of(eng, a):
    """the settings of one clap argument"""
    ch = chain(a)
    if not ch or ch[0][0] != "Arg::new":
        raise Unknown("argument")
    d = {"id": text(ch[0][1][0]), "long": set(), "short": set(), "action": None, "default": None, "required": False, "parser": None, "conflicts": [], "requires": [], "exclusive": False,
         "env": False, "equals": False, "num_args": None, "group": None}
    for m, v in ch[1:]:
        m = m.split("::")[-1]
        x = v[1] if len(v) > 1 else None
        if m not in HARMLESS:
            raise Unknown("argument setting " + m)
        if m in ("long", "short"):
            t = text(x)
            d[m] = {(y, al) for y, al in d[m] if al}
            if t is not None:
                d[m].add((t, False))
        elif m in ("alias", "visible_alias"):
            d["long"].add((text(x), True))
        elif m in ("aliases", "visible_aliases"):
            d["long"] |= {(t, True) for t in text_list(x)}
        elif m in ("short_alias", "visible_short_alias"):
            d["short"].add((text(x), True))
        elif m == "action":
            d["action"] = variant_name(eng, x)
        elif m == "default_value":
            d["default"] = text(x)
        elif m in ("required", "exclusive"):
            d[m] = bool(x[2]) if x[0] == "c" else None
        elif m == "require_equals":
            d["equals"] = bool(x[2])
        elif m == "value_parser":
            d["parser"] = x
        elif m in ("conflicts_with", "conflicts_with_all"):
            d["conflicts"] += text_list(x)
        elif m in ("requires", "requires_all"):
            d["requires"] += text_list(x)
        elif m == "env":
            d["env"] = True
        elif m in ("num_args", "overrides_with", "overrides_with_all", "allow_hyphen_values", "group"):
            raise Unknown("argument setting " + m)
    return d


def usage(w):
    w.exits.append((USAGE, None))
    raise Diverge()


World.usage = usage


def match(w, eng, cmd):
    """the parsed argument list"""
    w.cmd = cmd
    specs, groups = [], []
    for m, v in chain(cmd):
        m = m.split("::")[-1]
        if m == "arg":
            specs.append(spec_of(eng, v[1]))
        elif m == "args":
            s = v[1]
            if s[0] != "seq" or any(x[0] != "1" for x in s[1]):
                raise Unknown("argument list")
            specs += [spec_of(eng, x[1]) for x in s[1]]
        elif m == "group":
            groups.append(v[1])
        elif m == "arg_required_else_help":
            if v[1] == TRUE and not w.argv:
                w.usage()
        elif m in ("new", "version", "about", "long_about", "author", "name", "bin_name", "after_help", "before_help", "color", "styles", "help_template", "infer_long_args", "term_width",
                   "max_term_width", "display_name", "long_version", "after_long_help", "next_line_help", "disable_colored_help", "hide_possible_values", "before_long_help"):
            pass
        else:
            raise Unknown("command setting " + m)
    for s in specs:
        if s["env"]:
            w.notes.append("the option %s takes its value from an environment variable" % s["id"])
    given = {}
    pos = [s for s in specs if not s["long"] and not s["short"]]
    toks = list(w.argv)
    while toks:
        t = toks.pop(0)
        if isinstance(t, tuple):
            p = [s for s in pos if s["id"] not in given]
            if not p:
                w.usage()
            given[p[0]["id"]] = t
            continue
        kind, name = ("long", t[2:]) if t.startswith("--") else ("short", t[1:])
        hit = [s for s in specs if any(y == name for y, _ in s[kind])]
        if not hit:
            w.usage()
        s = hit[0]
        act = s["action"] or "Set"
        if s["id"] in given and act != "Append" and act != "Count":
            w.usage()
        if act in ("Set", "Append"):
            if s["equals"]:
                w.usage()
            if not toks or not isinstance(toks[0], tuple):
                w.usage()
            given[s["id"]] = toks.pop(0)
        elif act in ("SetTrue", "SetFalse"):
            given[s["id"]] = cbool(act == "SetTrue")
        elif act in ("Help", "HelpShort", "HelpLong", "Version"):
            w.usage()
        else:
            raise Unknown("action " + act)
    byid = {s["id"]: s for s in specs}
    for i in given:
        s = byid[i]
        if any(x in given for x in s["conflicts"]) or any(x not in given for x in s["requires"]) or s["exclusive"] and len(given) > 1:
            w.usage()
    for s in specs:
        if s["required"] is None:
            raise Unknown("required")
        if s["required"] and s["id"] not in given:
            w.usage()
    for g in groups:
        d = {"multiple": False, "required": False, "args": []}
        for m, v in chain(g)[1:]:
            m = m.split("::")[-1]
            if m in ("multiple", "required"):
                d[m] = v[1] == TRUE
            elif m in ("arg", "args"):
                d["args"] += text_list(v[1])
            elif m == "id":
                pass
            else:
                raise Unknown("group setting " + m)
        n = [x for x in d["args"] if x in given]
        if not d["multiple"] and len(n) > 1 or d["required"] and not n:
            w.usage()
    w.specs = byid
    w.matches = {}
    for s in specs:
        i = s["id"]
        if i in given:
            w.matches[i] = given[i]
        elif s["default"] is not None:
            w.matches[i] = lit(s["default"])
        elif s["action"] in ("SetTrue", "SetFalse"):
            w.matches[i] = cbool(s["action"] == "SetFalse")
    # whatever the program reads, every value on the command line must be valid
    w.check = [(i, s["parser"]) for i, s in byid.items() if i in given]


def value(w, eng, st, i, ti, site):
    """a matched value, converted"""
    if i not in w.specs:
        # clap panics when an unknown id is asked for
        raise Diverge()
    if i not in w.matches:
        return NONE
    v = w.matches[i]
    t = eng.p.types[eng.p.peel(ti)] if ti is not None else None
    pt = w.specs[i]["parser"]
    if v[0] == "c" or t is None:
        return some(v)
    if t["k"] == "str" or models.is_coll(t, "String"):
        return some(v)
    if t["k"] == "adt" and t["path"].endswith("PathBuf"):
        return some(v)
    f = eng.p.fn("<%s as clap_builder::derive::ValueEnum>::value_variants::<'_>" % t["s"])
    g = eng.p.fn("<%s as clap_builder::derive::ValueEnum>::to_possible_value" % t["s"])
    if f is None:
        f = next((x for x in eng.p.fns.values() if x["local"] and x["path"] == "<%s as clap_builder::derive::ValueEnum>::value_variants" % t["s"]), None)
    if f is None or g is None or pt is None or not re.search(r"EnumValueParser<%s>" % re.escape(t["s"]), pt[1] if pt[0] == "app" else ""):
        raise Unknown("conversion to %s by %s" % (t["s"], show(pt)[:200] if pt else None))
    vs = eng.as_seq(eng.deepderef(st, eng.run(f, [], st)))
    want = str_const(v)
    if vs is None or want is None:
        raise Unknown("values of " + t["s"])
    for s in vs[1]:
        x = s[1]
        r = eng.deepderef(st, eng.run(g, [x], st))
        if r[0] != "adt":
            raise Unknown("values of " + t["s"])
        if r[2] == 0:
            continue
        ch = chain(r[3][0])
        names = [text(ch[0][1][0])]
        for m, a in ch[1:]:
            m = m.split("::")[-1]
            if m in ("alias", "aliases"):
                names += text_list(a[1])
            elif m not in ("help", "hide"):
                raise Unknown("value setting " + m)
        if want in names:
            return some(x)
    w.usage()


World.match = match
World.value = value


# ------------------------------------------------------------------ logging
def logger(w, eng, st, c, args, site, dty):
    vals = [eng.deepderef(st, a) for a in args]
    n = c["name"].rsplit("::", 1)[-1]
    if n == "target" and len(vals) > 1 and vals[1][0] == "adt":
        t = eng.adt_info(vals[1][1])
        if t is not None and t["variants"][vals[1][2]]["name"] == "Stdout":
            w.notes.append("log messages go to standard output")
    d = eng.p.types[dty] if dty is not None else None
    if d is not None and d["k"] == "tuple" and not d["args"]:
        return UNIT
    return eng.app("logger:" + n, [v for v in vals if v[0] != "top"], dty)


# ------------------------------------------------------------------ input and output
def src_of(eng, st, v):
    v = eng.deepderef(st, v)
    while v[0] == "app" and v[1] in ("lock", "reader"):
        v = v[2][0]
    return v


@on("std::io::stdio::stdin")
def stdin(w, eng, st, c, args, site, dty):
    return STDIN


@on("std::io::stdio::stdout")
def stdout(w, eng, st, c, args, site, dty):
    return STDOUT


@on("std::io::stdio::stderr")
def stderr(w, eng, st, c, args, site, dty):
    return STDERR


@on("Stdin::lock", "Stdout::lock", "Stderr::lock", "BufReader::new", "BufWriter::new", "LineWriter::new", "Read::by_ref", "Write::by_ref")
def same(w, eng, st, c, args, site, dty):
    return args[0]


@on("BufReader::with_capacity", "BufWriter::with_capacity")
def same1(w, eng, st, c, args, site, dty):
    return args[1]


@on("File::open")
def file_open(w, eng, st, c, args, site, dty):
    p = eng.deepderef(st, args[0])
    return ok(eng.app("file", [p])) if w.opens else err(("app", "open error", ()))


def readable(w):
    return w.parses != "unreadable"


@on("std::fs::read_to_string", "std::fs::read")
def fs_read(w, eng, st, c, args, site, dty):
    p = eng.deepderef(st, args[0])
    return ok(eng.app("content", [eng.app("file", [p])])) if w.opens and readable(w) else err(("app", "read error", ()))


@on("std::io::read_to_string", "alloc::io::read_to_string", "alloc::io::read::read_to_string", "std::io::read::read_to_string", "std::io::stdio::read_to_string")
def io_read(w, eng, st, c, args, site, dty):
    return ok(eng.app("content", [src_of(eng, st, args[0])])) if readable(w) else err(("app", "read error", ()))


@on("Read::read_to_string", "Read::read_to_end")
def read_all(w, eng, st, c, args, site, dty):
    s = src_of(eng, st, args[0])
    if not readable(w):
        return err(("app", "read error", ()))
    old = eng.deref(st, args[1])
    if not (old[0] == "str" and not old[1] or old == EMPTY):
        return NotImplemented
    eng.store(st, args[1], eng.app("content", [s]))
    return ok(("app", "number of bytes", ()))


def parsed(w, eng, src, ti):
    t = eng.p.types[ti] if ti is not None else None
    if t is None or t["k"] != "adt" or t["path"] != models.JVALUE:
        return NotImplemented
    return ok(eng.app("parsed", [src], ti)) if w.parses is True else err(("app", "parse error", ()))


@on("serde_json::de::from_reader")
def from_reader(w, eng, st, c, args, site, dty):
    return parsed(w, eng, src_of(eng, st, args[0]), c["targs"][1] if len(c["targs"]) > 1 else None)


@on("serde_json::de::from_str", "serde_json::de::from_slice")
def from_str(w, eng, st, c, args, site, dty):
    v = eng.deepderef(st, args[0])
    if v[0] != "app" or v[1] != "content":
        return NotImplemented
    return parsed(w, eng, v[2][0], c["targs"][-1])


@on("Deserializer::from_reader", "Deserializer::from_str", "Deserializer::from_slice")
def de_new(w, eng, st, c, args, site, dty):
    v = src_of(eng, st, args[0])
    return eng.app("deserializer", [v[2][0] if v[0] == "app" and v[1] == "content" else v])


@on("Deserializer::into_iter")
def de_iter(w, eng, st, c, args, site, dty):
    v = eng.deepderef(st, args[0])
    if v[0] != "app" or v[1] != "deserializer":
        return NotImplemented
    t = eng.p.types[c["targs"][-1]] if c["targs"] else None
    return eng.app("documents", [v[2][0], ("c", "usize", 0)]) if t is not None and t["k"] == "adt" and t["path"] == models.JVALUE else NotImplemented


@on("StreamDeserializer::next", "core::iter::traits::iterator::Iterator::next")
def de_next(w, eng, st, c, args, site, dty):
    """the values of a stream, one by one"""
    v = eng.deepderef(st, args[0]) if args else TOP
    if v[0] != "app" or v[1] != "documents" or args[0][0] != "ref":
        return NotImplemented
    src, n = v[2][0], v[2][1][2]
    eng.store(st, args[0], eng.app("documents", [src, ("c", "usize", n + 1)]))
    if n == 0:
        if w.parses == "empty":
            return NONE
        if w.parses == "trailing":
            return some(ok(eng.app("first value of", [src])))
        return some(ok(eng.app("parsed", [src]))) if w.parses is True else some(err(("app", "parse error", ())))
    return some(err(("app", "trailing characters", ()))) if n == 1 and w.parses == "trailing" else NONE


@on("Read::take")
def read_take(w, eng, st, c, args, site, dty):
    return eng.app("the first bytes of", [src_of(eng, st, args[0]), eng.deepderef(st, args[1])])


@on("Read::chain")
def read_chain(w, eng, st, c, args, site, dty):
    return eng.app("joined", [src_of(eng, st, a) for a in args])


@on("Deserializer::end")
def de_end(w, eng, st, c, args, site, dty):
    w.ended = True
    return ok(UNIT) if w.parses is True else err(("app", "trailing characters", ()))


@on("Deserialize::deserialize")
def de_value(w, eng, st, c, args, site, dty):
    v = eng.deepderef(st, args[0])
    if v[0] != "app" or v[1] != "deserializer":
        return NotImplemented
    if w.parses == "trailing":
        t = eng.p.types[c["targs"][0]]
        return ok(eng.app("first value of", [v[2][0]], c["targs"][0])) if t["k"] == "adt" and t["path"] == models.JVALUE else NotImplemented
    return parsed(w, eng, v[2][0], c["targs"][0])


@on("Error::is_eof", "Error::is_io", "Error::is_data", "Error::is_syntax", "Error::classify", "Error::line", "Error::column", "Error::kind", "Error::raw_os_error")
def error_kind(w, eng, st, c, args, site, dty):
    return eng.app(c["name"].rsplit("::", 1)[-1], [eng.deepderef(st, args[0])], dty)


@on("std::env::var", "std::env::var_os", "std::env::args", "std::env::args_os", "std::env::current_dir", "std::env::vars")
def env(w, eng, st, c, args, site, dty):
    return eng.app("environment", [eng.deepderef(st, a) for a in args], dty)


@on("jst::convert_avro", "jst::convert_bigquery")
def convert(w, eng, st, c, args, site, dty):
    if not w.converts:
        eng.event("panic", eng.stack[-1]["id"], ("conversion fails", ""))
        raise Diverge()
    return eng.app(c["name"], [eng.deepderef(st, a) for a in args], dty)


@on("serde_json::ser::to_string_pretty", "serde_json::ser::to_string", "serde_json::ser::to_vec", "serde_json::ser::to_vec_pretty")
def to_text(w, eng, st, c, args, site, dty):
    return ok(eng.app("text", [eng.deepderef(st, args[0])]))


def emit(w, eng, st, v):
    if v[0] == "app" and v[1] == "display":
        v = eng.app("text", [v[2][0]])
    if v[0] == "str":
        v = ("str", tuple(("t", eng.app("text", [s[1][2][0]])) if s[0] == "t" and s[1][0] == "app" and s[1][1] == "display" else s for s in v[1]))
    w.prints.append(v)
    old = st.cells.get(OUT, lit(""))
    st.cells[OUT] = models.cat([old, v])
    return ok(UNIT)


@on("std::io::stdio::_print")
def print_(w, eng, st, c, args, site, dty):
    emit(w, eng, st, eng.deepderef(st, args[0]))
    return UNIT


def to_stdout(eng, st, v):
    """whether a writer is standard output: True, False, or None"""
    v = eng.deepderef(st, v)
    return True if v == STDOUT else False if v == STDERR else None


@on("serde_json::ser::to_writer", "serde_json::ser::to_writer_pretty")
def to_writer(w, eng, st, c, args, site, dty):
    o = to_stdout(eng, st, args[0])
    if o is None:
        return NotImplemented
    return emit(w, eng, st, eng.app("text", [eng.deepderef(st, args[1])])) if o else ok(UNIT)


@on("Write::write_fmt", "Write::write_all", "Write::write_str")
def write_fmt(w, eng, st, c, args, site, dty):
    o = to_stdout(eng, st, args[0])
    if o is None:
        return NotImplemented
    v = eng.deepderef(st, args[1])
    if v[0] == "bytes":
        v = lit(bytes(v[1]).decode("utf8", "replace"))
    return emit(w, eng, st, v) if o else ok(UNIT)


@on("Write::flush")
def flush(w, eng, st, c, args, site, dty):
    return ok(UNIT)


@on("std::process::exit")
def exit_(w, eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    w.exits.append((v[2] if v[0] == "c" else None, st.cells.get(OUT, lit(""))))
    eng.event("panic", eng.stack[-1]["id"], ("exit", show(v)))
    raise Diverge()


@on("OnceLock::get_or_init", "LazyLock::force", "OnceCell::get_or_init")
def once(w, eng, st, c, args, site, dty):
    return eng.call_value(st, args[1], [], site, None)
