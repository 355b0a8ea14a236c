"""Effects of a conversion: nothing but its arguments is read, nothing but its result is written (C02); nothing is printed (C04)."""
import re
from . import Result
from .graph import *

AMBIENT = [
    (r"^std::env::", "the environment"), (r"^std::fs::", "the file system"), (r"^(std|core)::net::.*(bind|connect|accept|lookup|to_socket_addrs|send|recv)", "the network"),
    (r"^std::net::", "the network"), (r"^std::os::", "the operating system"), (r"^std::sys::", "the operating system"), (r"^std::process::", "the process"),
    (r"^std::thread::(?!local::LocalKey)", "threads"), (r"^std::time::", "the clock"), (r"^std::random::", "random numbers"), (r"^std::panic::(set_hook|take_hook|update_hook)|^std::panicking::(set_hook|take_hook|update_hook)", "the panic hook"),
    (r"^std::io::stdio::(stdin|Stdin)", "standard input"), (r"^std::io::stdio::(_print|stdout|Stdout)", "standard output"), (r"^std::backtrace::", "the stack"),
    (r"^log::(set_|__private_api::set)", "the logger"), (r"^env_logger::", "the logger"), (r"^std::alloc::set", "the allocator"), (r"^libc::", "the operating system"),
]
AMBIENT = [(re.compile(a), b) for a, b in AMBIENT]
PRINTS = re.compile(r"^std::io::stdio::(_print|stdout|Stdout)|^std::process::(exit|abort)|^std::os::fd|^std::fs::")
CELLS = re.compile(r"\b(Cell|RefCell|UnsafeCell|SyncUnsafeCell|OnceCell|LazyCell|Mutex|RwLock|ReentrantLock|Atomic\w*|Once|OnceLock|LazyLock|Condvar|Barrier|Sender|Receiver|Weak)\b")
LOGLEVEL = re.compile(r"^log::(max_level|logger|__private_api::(enabled|loc))|^log::Log::enabled")


def full(c):
    return c.get("rname") or c["name"]


def names(c):
    return {c["name"], c.get("rname") or c["name"], c.get("rpath") or c["name"]}


def random_hash(p, c):
    """a hash computed under a random key"""
    if c["name"] not in ("core::hash::BuildHasher::hash_one", "core::hash::BuildHasher::build_hasher"):
        return False
    t = p.types[c["self_ty"]] if c.get("self_ty") is not None else None
    return t is not None and t["s"].endswith("RandomState")


def lazy_ok(ty):
    """the type of a static that is written at most once, with a constant"""
    m = re.match(r"^(?:std|core|alloc|once_cell)::[\w:]*\b(LazyLock|OnceLock|Lazy)<(.*)>$", ty)
    if not m:
        return None
    inner = m.group(2)
    if m.group(1) == "LazyLock":
        inner = re.sub(r",\s*fn\(\).*$", "", inner)
    return m.group(1) if not CELLS.search(inner) else None


def log_regions(p, f):
    """(number of tests of the log level, findings) in one function"""
    out, n = [], 0
    for body in [f["body"]]:
        bl = body["blocks"]
        taint = set()
        ch = True
        sites = 0
        while ch:
            ch = False
            sites = 0
            for i, b in enumerate(bl):
                for s in b["s"]:
                    if s[0] != "=":
                        continue
                    src = [o[1][0] for o in rv_operands(s[2]) if o[0] in ("copy", "move")] + [q[0] for q in rv_places(s[2])]
                    if any(x in taint for x in src) and s[1][0] not in taint:
                        taint.add(s[1][0])
                        ch = True
                t = b["t"]
                if t[0] == "call":
                    c = p.callee(t[1])
                    hit = c is not None and LOGLEVEL.search(full(c))
                    sites += bool(hit)
                    hit = hit or any(o[0] in ("copy", "move") and o[1][0] in taint for o in t[2])
                    if hit and t[3][0] not in taint:
                        taint.add(t[3][0])
                        ch = True
        if not sites:
            continue
        n += sites
        if 0 in taint:
            out.append((bl[0].get("sp"), "the log level reaches the result of the function"))
        ip = postdom(body)
        live, borrowed = p.live(body)
        for i, b in enumerate(bl):
            t = b["t"]
            if t[0] == "call":
                c = p.callee(t[1])
                if any(o[0] in ("copy", "move") and o[1][0] in taint for o in t[2]) and not (c is not None and (c["name"].startswith(("log::", "core::cmp::", "core::fmt::", "core::clone::", "core::convert::")) or full(c).startswith("log::"))):
                    out.append((b.get("sp"), "the log level is passed to %s" % (full(c) if c else "a function value")))
            if t[0] != "switch" or t[1][0] == "const" or t[1][1][0] not in taint:
                continue
            j = ip.get(i)
            if j is None:
                out.append((b.get("sp"), "what happens after a test of the log level depends on it"))
                continue
            reg = set()
            for s in succ(t):
                reg |= region(body, s, j)
            outside = set()
            for k, bb in enumerate(bl):
                if k in reg or bb.get("cl"):
                    continue
                for s in bb["s"]:
                    if s[0] == "=":
                        outside.add(s[1][0])
                        outside |= {o[1][0] for o in rv_operands(s[2]) if o[0] in ("copy", "move")} | {q[0] for q in rv_places(s[2])}
                tt = bb["t"]
                if tt[0] == "call":
                    outside |= {o[1][0] for o in tt[2] if o[0] in ("copy", "move")} | {tt[3][0]}
                elif tt[0] in ("switch", "assert") and tt[1][0] != "const":
                    outside.add(tt[1][1][0])
            outside |= set(range(0, body["argc"] + 1))
            for k in reg:
                bb = bl[k]
                if bb.get("cl"):
                    continue
                for s in bb["s"]:
                    if s[0] == "=":
                        l = s[1][0]
                        if l in outside and (l in live[j] or l in borrowed or l == 0):
                            out.append((s[3] if len(s) > 3 else bb.get("sp"), "a value used later is written only at some log levels"))
                        if s[2][0] == "ref" and s[2][1] == "mut" and s[2][2][0] in outside:
                            out.append((s[3] if len(s) > 3 else bb.get("sp"), "a value used later is borrowed for writing only at some log levels"))
                tt = bb["t"]
                if tt[0] == "call":
                    if tt[3][0] in outside and (tt[3][0] in live[j] or tt[3][0] in borrowed):
                        out.append((bb.get("sp"), "a value used later is written only at some log levels"))
                    for o in tt[2]:
                        if o[0] in ("copy", "move") and o[1][0] in outside:
                            ty = p.types[body["locals"][o[1][0]]["ty"]]
                            if ty["k"] == "ref" and ty.get("mut") and not o[1][1]:
                                out.append((bb.get("sp"), "a value used later is handed out for writing only at some log levels"))
                if tt[0] == "return":
                    out.append((bb.get("sp"), "the function returns early only at some log levels"))
    return n, out


def effects(lib, binp, tier):
    p = lib
    r = Result()
    reach, roots = during_conversion(p)
    calls = 0
    regions = 0
    used_statics = {}
    ty = {s["path"]: s for s in p.statics}
    for n in sorted(reach):
        f = p.fns[n]
        r.functions.add(n)
        once_sites = []
        for c, sp in mentions(p, f):
            calls += 1
            for nm in names(c):
                hit = next((b for a, b in AMBIENT if a.search(nm)), None)
                if hit:
                    r.violations.append(("effect|%s|%s" % (f["parent"], nm), "%s (%s) calls %s: a conversion touches %s" % (f["parent"], where(sp), nm, hit)))
                    break
            if random_hash(p, c):
                r.violations.append(("effect|%s|random hash" % f["parent"], "%s (%s) computes a hash under a random key" % (f["parent"], where(sp))))
            if c["name"].startswith("std::thread::local::LocalKey::"):
                t = p.types[c["targs"][0]]["s"] if c["targs"] else ""
                if CELLS.search(t) or c["name"].rsplit("::", 1)[1] in ("set", "take", "replace", "with_borrow_mut"):
                    r.violations.append(("effect|%s|thread local" % f["parent"], "%s (%s) uses a thread-local variable of type %s that carries state between conversions" % (f["parent"], where(sp), t)))
            m = c["name"].rsplit("::", 2)[-2:]
            if m[0] in ("OnceLock", "OnceCell") and m[1] in ("set", "get_or_init", "get_or_try_init", "get_mut", "take", "try_insert", "get_mut_or_init"):
                clos = [p.types[t] for t in c["targs"] if p.types[t]["k"] == "closure"]
                pure = m[1] == "get_or_init" and (not clos or all(captures(p, x) == 0 for x in clos))
                once_sites.append((c, sp, pure))
        for s, sp in statics_of(f):
            used_statics.setdefault(s, []).append((f, sp))
        if any(s for s, _ in statics_of(f)):
            for c, sp, pure in once_sites:
                if not pure:
                    r.violations.append(("effect|%s|once cell" % f["parent"], "%s (%s) stores a value computed from one conversion in a global variable" % (f["parent"], where(sp))))
        for s, sp in thread_locals(f):
            pass
        k, out = log_regions(p, f)
        regions += k
        for sp, text in out:
            r.violations.append(("log level|%s|%s" % (f["parent"], text), "%s (%s): %s" % (f["parent"], where(sp), text)))
        for body in [f["body"]]:
            for b in body["blocks"]:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "cast" and "ExposeProvenance" in s[2][1]:
                        r.violations.append(("effect|%s|address" % f["parent"], "%s (%s) uses the address of a value as a number" % (f["parent"], where(s[3] if len(s) > 3 else None))))
    for s, uses in used_statics.items():
        d = ty.get(s)
        if d is None:
            continue
        f, sp = uses[0]
        if d["mutable"]:
            r.violations.append(("static|%s" % s, "%s (%s) uses the mutable global variable %s" % (f["parent"], where(sp), s)))
        elif CELLS.search(d["ty"]) and not lazy_ok(d["ty"]):
            r.violations.append(("static|%s" % s, "%s (%s) uses the global variable %s of type %s, which carries state between conversions" % (f["parent"], where(sp), s, d["ty"])))
    r.violations = sorted(set(r.violations))
    r.coverage = {"functions": len(reach), "entry_points": list(ENTRIES), "methods_reachable_from_outside": len(roots) - 2, "call_sites": calls,
                  "global_variables_used": sorted(used_statics), "tests_of_the_log_level": regions,
                  "rule": "no reachable function mentions an ambient API, no mutable or interior-mutable global except write-once constants, and no code decided by the log level writes anything used later"}
    if len(reach) < 20 or calls < 100:
        r.dead = "only %d functions" % len(reach)
    return r


def captures(p, t):
    f = p.fns.get(t.get("inst"))
    if f is None:
        return 1
    # a closure body's first local is the closure itself; projections of it are captured variables
    for b in f["body"]["blocks"]:
        for s in b["s"]:
            if s[0] == "=":
                pl = [o[1] for o in rv_operands(s[2]) if o[0] in ("copy", "move")] + rv_places(s[2])
                if any(q[0] == 1 and q[1] for q in pl):
                    return 1
        tm = b["t"]
        if tm[0] == "call" and any(o[0] in ("copy", "move") and o[1][0] == 1 and o[1][1] for o in tm[2]):
            return 1
    return 0


def prints(lib, binp, tier):
    p = lib
    r = Result()
    calls = 0
    for n, f in sorted(p.fns.items()):
        if not f["local"]:
            continue
        r.functions.add(n)
        for c, sp in mentions(p, f):
            calls += 1
            for nm in names(c):
                if PRINTS.search(nm):
                    r.violations.append(("prints|%s|%s" % (f["parent"], nm), "%s (%s) calls %s: the library writes to standard output or ends the process" % (f["parent"], where(sp), nm)))
                    break
    r.violations = sorted(set(r.violations))
    r.coverage = {"functions": len(r.functions), "call_sites": calls, "rule": "no function of the library mentions standard output, a file or the end of the process"}
    if calls < 100:
        r.dead = "only %d call sites" % calls
    return r
