"""Loops: each is bounded by a finite iterator, a counter or a shrinking collection; none has an exit that its body cannot influence (C25)."""
import re
from . import Result
from .graph import *
from ..prog import succ, rv_operands, rv_places

INFINITE = re.compile(r"::(Repeat|RepeatWith|Cycle|RangeFrom|Successors|FromFn)<")
CUTS = re.compile(r"::(Take|Zip|TakeWhile|MapWhile|Scan|Fuse|Skip|StepBy|Peekable)<")
BOUNDED = re.compile(r"::(Take|Zip)<")
NEXT = re.compile(r"^core::iter::traits::(iterator::Iterator::(next|nth)|double_ended::DoubleEndedIterator::(next_back|nth_back))$|Peekable::(next_if|next_if_eq)$|^serde::de::(MapAccess::next_(key|entry)|SeqAccess::next_element)(_seed)?$")
POPS = re.compile(r"(Vec|VecDeque|BinaryHeap|BTreeMap|BTreeSet)::(pop|pop_front|pop_back|pop_first|pop_last|pop_if)$")
PUSHES = re.compile(r"(Vec|VecDeque|BinaryHeap|BTreeMap|BTreeSet|HashMap)::(push|push_back|push_front|insert|append|extend_from_slice)$|Extend::extend$")
CONSUMERS = re.compile(r"^core::iter::traits::iterator::Iterator::(collect|count|fold|for_each|last|sum|product|max|min|max_by|min_by|max_by_key|min_by_key|partition|unzip)$")


def sccs(nodes, edges):
    idx, low, on, st, out = {}, {}, set(), [], []

    def dfs(v):
        work = [(v, iter([s for s in edges(v) if s in nodes]))]
        idx[v] = low[v] = len(idx)
        st.append(v)
        on.add(v)
        while work:
            x, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter([s for s in edges(w) if s in nodes])))
                    break
                elif w in on:
                    low[x] = min(low[x], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == idx[x]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == x:
                            break
                    if len(c) > 1 or x in edges(x):
                        out.append(c)
    for v in sorted(nodes):
        if v not in idx:
            dfs(v)
    return out


class Loops:
    def __init__(self, p, f):
        self.p, self.f, self.body = p, f, f["body"]
        self.bl = self.body["blocks"]
        self.nodes = {i for i, b in enumerate(self.bl) if not b.get("cl")}

    def edges(self, b):
        return succ(self.bl[b]["t"])

    def tyof(self, l):
        return self.p.types[self.body["locals"][l]["ty"]]

    def top(self):
        live = set()
        todo = [0]
        while todo:
            b = todo.pop()
            if b in live or b not in self.nodes:
                continue
            live.add(b)
            todo += self.edges(b)
        return sccs(live, self.edges)

    def assigned(self, c):
        """locals a loop writes, and locals it lends out for writing"""
        w, lent = {}, set()
        # looking at the next element changes nothing
        peeks = set()
        for b in c:
            t = self.bl[b]["t"]
            if t[0] == "call" and (self.p.callee(t[1]) or {"name": ""})["name"].endswith("Peekable::peek"):
                peeks |= {o[1][0] for o in t[2] if o[0] in ("copy", "move")}
        for b in c:
            for s in self.bl[b]["s"]:
                if s[0] == "=":
                    w.setdefault(s[1][0], []).append((b, s))
                    if s[2][0] == "ref" and s[2][1] == "mut" and not (s[1][0] in peeks and not s[1][1]):
                        lent.add(s[2][2][0])
            t = self.bl[b]["t"]
            if t[0] == "call":
                w.setdefault(t[3][0], []).append((b, t))
                for o in t[2]:
                    if o[0] in ("copy", "move") and o[1][0] in peeks:
                        continue
                    if o[0] in ("copy", "move"):
                        ty = self.tyof(o[1][0])
                        if ty["k"] == "ref" and ty.get("mut"):
                            lent.add(o[1][0])
        self.peeks = peeks
        return w, lent

    def bounded(self, c):
        """(True | False | None, reason) for one strongly connected set of blocks"""
        w, lent = self.assigned(c)
        pushes = False
        cand = []
        for b in sorted(c):
            t = self.bl[b]["t"]
            if t[0] != "call":
                continue
            cal = self.p.callee(t[1])
            if cal is None:
                continue
            n = cal["name"]
            if PUSHES.search(n):
                pushes = True
            if NEXT.search(n):
                st = self.p.types[cal["self_ty"]]["s"] if cal.get("self_ty") is not None else ""
                # a mutable reference to an iterator iterates the iterator
                st = st.lstrip("&").replace("mut ", "")
                cand.append((b, "iterator " + st[:120], not INFINITE.search(st) or bool(BOUNDED.search(st)), bool(INFINITE.search(st)) and not CUTS.search(st)))
            if POPS.search(n):
                cand.append((b, n, None, False))
        for b, why, fin, inf in cand:
            if fin is None:
                fin = not pushes
            if not fin:
                continue
            rest = sccs(c - {b}, self.edges)
            rs = [self.bounded(x) for x in rest]
            if all(r[0] for r in rs):
                return True, why
        # counters
        for l, ws in w.items():
            if self.tyof(l)["k"] != "int" or l in lent:
                continue
            for b in self.steps(l, ws, c, w):
                rest = sccs(c - {b}, self.edges)
                if all(self.bounded(x)[0] for x in rest):
                    return True, "counter"
        for b, why, fin, inf in cand:
            if inf and not self.other_exit(c, b):
                return False, "the %s never ends and nothing else leaves the loop" % why
        if self.stuck(c, w, lent):
            return False, "nothing the loop changes can end it"
        if self.idle(c, w, lent):
            return False, "an iteration that changes nothing leads to the same iteration again"
        return None, "no bound recognised"

    def steps(self, l, ws, c, w):
        """blocks that move the integer l one way, compared in the loop with something the loop leaves alone"""
        out, signs = [], set()
        for b, s in ws:
            if s[0] != "=":
                return []
            d = self.delta(l, s[2], c)
            if d is None or d == 0:
                return []
            signs.add(d > 0)
            out.append(b)
        if len(signs) != 1:
            return []
        for b in c:
            t = self.bl[b]["t"]
            if t[0] == "switch" and t[1][0] != "const" and any(s not in c for s in succ(t)):
                for cmp_ in self.defs(t[1][1][0], c):
                    if cmp_[0] == "bin" and cmp_[1] in ("Lt", "Le", "Gt", "Ge", "Ne", "Eq"):
                        x, y = self.root(cmp_[2], c), self.root(cmp_[3], c)
                        if l in (x, y):
                            o = y if x == l else x
                            if o is None or o not in w:
                                up = next(iter(signs))
                                lower = x == l and cmp_[1] in ("Lt", "Le") or y == l and cmp_[1] in ("Gt", "Ge")
                                if cmp_[1] in ("Ne", "Eq") or lower == up:
                                    return out
        return []

    def defs(self, l, c):
        return [s[2] for b in c for s in self.bl[b]["s"] if s[0] == "=" and s[1] == [l, []]]

    def root(self, o, c):
        """the local an operand copies, or None for a constant"""
        for _ in range(6):
            if o[0] == "const":
                return None
            l = o[1][0]
            if o[1][1]:
                return l
            ds = self.defs(l, self.nodes)
            if len(ds) != 1 or ds[0][0] != "use" or ds[0][1][0] == "const":
                return l
            if ds[0][1][1][1]:
                return ds[0][1][1][0]
            o = ds[0][1]
        return l

    def delta(self, l, r, c):
        """the constant an assignment adds to l"""
        if r[0] == "use" and r[1][0] in ("copy", "move"):
            q = r[1][1]
            ds = self.defs(q[0], c)
            if len(ds) == 1:
                return self.delta(l, ds[0], c)
            return None
        if r[0] == "bin" and r[1].startswith(("Add", "Sub")):
            if self.root(r[2], c) == l and r[3][0] == "const" and isinstance(r[3][1].get("v"), int):
                return r[3][1]["v"] * (1 if r[1].startswith("Add") else -1)
        return None

    def other_exit(self, c, b):
        """does a switch that does not look at the result of the call in block b leave the loop?"""
        dst = self.bl[b]["t"][3][0]
        derived = {dst}
        for _ in range(3):
            for x in c:
                for s in self.bl[x]["s"]:
                    if s[0] == "=" and any(q[0] in derived for q in [o[1] for o in rv_operands(s[2]) if o[0] in ("copy", "move")] + rv_places(s[2])):
                        if s[2][0] == "discr":
                            derived.add(s[1][0])
        for x in c:
            t = self.bl[x]["t"]
            if any(s not in c for s in succ(t)) and not (t[0] == "switch" and t[1][0] != "const" and t[1][1][0] in derived):
                return True
        return False

    def idle(self, c, w, lent):
        """a way around the loop that changes nothing, chosen by something that the rest of the loop does not change either"""
        head = [b for b in c if any(b in succ(self.bl[x]["t"]) for x in self.nodes - c)] or [min(c)]
        live, borrowed = self.p.live(self.body)
        at_head = set().union(*[live[h] for h in head])
        change = set()
        for l, ws in w.items():
            for b, s in ws:
                if l in at_head:
                    change.add(b)
                if s[0] == "=" and s[2][0] == "ref" and s[2][1] == "mut" and s[2][2][0] in at_head:
                    change.add(b)
        for b in c:
            t = self.bl[b]["t"]
            if t[0] == "call" and any(o[0] in ("copy", "move") and o[1][0] in at_head and o[1][0] in lent for o in t[2]):
                change.add(b)
        if not change:
            return False
        moved = self.variant(c, w, lent)
        for x in sccs(c - change, self.edges):
            if not set(head) & x:
                continue
            w2, lent2 = self.assigned(x)
            if not self.stuck(x, w2, lent2, True):
                continue
            div = [self.bl[b]["t"] for b in x if self.bl[b]["t"][0] == "switch" and any(s not in x and s in c for s in succ(self.bl[b]["t"]))]
            if div and all(t[1][0] != "const" and t[1][1][0] not in moved and not t[1][1][1] for t in div):
                return True
        return False

    def stuck(self, c, w, lent, strict=False):
        """every exit is decided by values that are the same in each iteration"""
        variant = self.variant(c, w, lent)
        for b in c:
            t = self.bl[b]["t"]
            out = [s for s in succ(t) if s not in c]
            if t[0] == "switch" and (out or strict):
                if t[1][0] != "const" and (t[1][1][0] in variant or t[1][1][1]):
                    return False
            elif t[0] == "assert":
                # a failing assertion ends the loop too (arithmetic overflow aside: it is no end but an abort, and only in debug builds)
                if t[3] != "Overflow" and t[1][0] != "const" and t[1][1][0] in variant:
                    return False
        # a diverging call or return inside the set is reached only through its switches
        return True

    def variant(self, c, w, lent):
        """the locals whose value may differ from one iteration to the next"""
        self.assigned(c)
        head = [b for b in c if any(b in succ(self.bl[x]["t"]) for x in self.nodes - c)] or [min(c)]
        live, borrowed = self.p.live(self.body)
        carried = set().union(*[live[h] for h in head]) & set(w)
        variant = carried | lent
        ch = True
        while ch:
            ch = False
            for l, ws in w.items():
                if l in variant:
                    continue
                for b, s in ws:
                    if s[0] == "=":
                        src = [o[1] for o in rv_operands(s[2]) if o[0] in ("copy", "move")] + rv_places(s[2])
                        bad = any(q[0] in variant or any(e != "*" and e[0] == "i" and e[1] in variant for e in q[1]) for q in src) or s[2][0] == "unknown"
                        bad = bad or s[2][0] == "ref" and s[2][1] == "mut" and l not in self.peeks
                    else:
                        bad = any(o[0] in ("copy", "move") and o[1][0] in variant for o in s[2]) or self.p.callee(s[1]) is None
                        for o in s[2]:
                            if o[0] in ("copy", "move") and o[1][0] not in self.peeks and (re.search(r"&mut |Cell|Mutex|Atomic|RwLock|Receiver", self.tyof(o[1][0])["s"])):
                                bad = True
                        cal = self.p.callee(s[1])
                        if cal is not None and not s[2] and not cal.get("ctor"):
                            bad = True
                    if bad:
                        variant.add(l)
                        ch = True
                        break
        return variant


def loops(lib, binp, tier):
    r = Result()
    reach, _ = during_conversion(lib)
    n, ok, unknown, cons = 0, 0, [], 0
    kinds = {}
    for i in sorted(reach):
        f = lib.fns[i]
        if not f["local"]:
            continue
        r.functions.add(i)
        L = Loops(lib, f)
        for c in L.top():
            n += 1
            v, why = L.bounded(c)
            sp = where(L.bl[min(c)].get("sp"))
            if v:
                ok += 1
                k = why if why == "counter" else why.split("<")[0]
                kinds[k] = kinds.get(k, 0) + 1
            elif v is False:
                r.violations.append(("loop|%s|%s" % (f["parent"], why), "%s (%s): %s" % (f["parent"], sp, why)))
            else:
                unknown.append("%s (%s)" % (f["parent"], sp))
        for cal, sp in mentions(lib, f):
            if CONSUMERS.search(cal["name"]) and cal.get("self_ty") is not None:
                cons += 1
                s = lib.types[cal["self_ty"]]["s"]
                if INFINITE.search(s) and not CUTS.search(s):
                    r.violations.append(("loop|%s|%s" % (f["parent"], cal["name"]), "%s (%s): %s runs over the endless iterator %s" % (f["parent"], where(sp), cal["name"], s[:200])))
    scc = {lib.sccs()[i][0] for i in reach if lib.fns[i]["local"] and not lib.fns[i]["derived"] and lib.recursive(i)}
    r.coverage = {"loops": n, "bounded": ok, "bounded_by": kinds, "no_bound_recognised": unknown[:20], "iterator_consumers": cons,
                  "recursive_groups": [sorted(lib.fns[x]["path"] for x in c if not lib.fns[x]["closure"])[:6] for c in scc],
                  "rule": "every loop takes an element of a finite iterator, pops from a collection it does not fill, or moves a counter to a fixed bound in each iteration; a loop none of whose exits depends on what it changes never ends"}
    if not reach:
        r.dead = "no functions"
    return r
