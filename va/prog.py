"""The dumped program: functions, types, call graph."""
import json
from . import renames, lift


class Prog:
    def __init__(self, path):
        with open(path) as f:
            text = f.read()
        d = renames.apply(text, json.loads(text), json.loads)
        self.crate = d["crate"]
        self.kind = d["kind"]
        self.fns = d["fns"]
        self.types = d["types"]
        self.open_extras = lift.apply(self.fns, self.types)
        self.statics = d["statics"]
        self.unsafe_fns = d["unsafe_fns"]
        self.by_path = {}
        self.type_by_str = {}
        for i, t in enumerate(self.types):
            if t:
                self.type_by_str.setdefault(t["s"], i)
        for n, f in self.fns.items():
            f["id"] = n
            self.by_path.setdefault(f["path"], []).append(n)
        self._loops = {}
        self._rpo = {}
        self._live = {}
        self._recursive = None

    # ---- types
    def peel(self, ty):
        """strips references, boxes and other transparent wrappers"""
        while ty is not None:
            t = self.types[ty]
            if t["k"] in ("ref", "ptr"):
                ty = t["args"][0]
            elif t["k"] == "adt" and t["path"] in ("alloc::boxed::Box", "alloc::rc::Rc", "alloc::sync::Arc", "alloc::borrow::Cow",
                                                     "core::pin::Pin", "core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop"):
                if not t["args"]:
                    return ty
                ty = t["args"][0]
            else:
                return ty
        return ty

    def ty(self, i):
        return self.types[i] if i is not None else None

    def adt_ty(self, path):
        for i, t in enumerate(self.types):
            if t and t["k"] == "adt" and t["path"] == path:
                return i
        return None

    def find_ty(self, s):
        return self.type_by_str.get(s)

    # ---- functions
    def local_fns(self, derived=False):
        return [f for f in self.fns.values() if f["local"] and (derived or not f["derived"])]

    def fn(self, path):
        """the instance of a non-generic function by its path"""
        l = self.by_path.get(path, [])
        return self.fns[l[0]] if l else None

    def find(self, pred):
        return [f for f in self.fns.values() if f["local"] and not f["closure"] and pred(f)]

    def trait_impl(self, trait_suffix, method, self_ty, arg=None):
        r = []
        for f in self.fns.values():
            if not f["local"] or f["closure"] or not f.get("trait"):
                continue
            if f["trait"].endswith(trait_suffix) and f["name"].endswith("::" + method) and f.get("self_ty") == self_ty:
                if arg is None or (f.get("trait_args") or [None, None])[-1] == arg:
                    r.append(f)
        return r[0] if r else None

    def callee(self, fop):
        """callee descriptor of a call operand, or None for indirect calls"""
        if fop[0] != "const":
            return None
        t = self.types[fop[1]["ty"]]
        return t.get("callee") if t["k"] == "fndef" else None

    def rpo(self, body):
        key = id(body)
        if key in self._rpo:
            return self._rpo[key]
        blocks = body["blocks"]
        seen, order = set(), []
        stack = [(0, iter(succ(blocks[0]["t"])))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ(blocks[s]["t"]))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        r = {b: i for i, b in enumerate(order)}
        self._rpo[key] = r
        return r

    def while_loops(self, body):
        """loops that do not run over an iterator: {head: blocks}"""
        key = id(body)
        if key in self._loops:
            return self._loops[key]
        rpo = self.rpo(body)
        blocks = body["blocks"]
        pred = {}
        for b in rpo:
            for s in succ(blocks[b]["t"]):
                pred.setdefault(s, []).append(b)
        loops = {}
        for b in rpo:
            for h in succ(blocks[b]["t"]):
                if rpo[h] <= rpo[b]:
                    mem, todo = loops.setdefault(h, {h}), [b]
                    while todo:
                        x = todo.pop()
                        if x not in mem:
                            mem.add(x)
                            todo += pred.get(x, [])
        nexts = [b for b in rpo if blocks[b]["t"][0] == "call" and (self.callee(blocks[b]["t"][1]) or {}).get("name", "").endswith(("Iterator::next", "DoubleEndedIterator::next_back"))]
        over = set()
        for b in nexts:
            inner = [h for h in loops if b in loops[h]]
            if inner:
                over.add(min(inner, key=lambda h: len(loops[h])))
        r = {h: m for h, m in loops.items() if h not in over}
        self._loops[key] = r
        return r

    def live(self, body):
        """locals live at the entry of each block; locals whose address is taken are always live"""
        key = id(body)
        if key in self._live:
            return self._live[key]
        blocks = body["blocks"]
        n = len(blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        borrowed = set()

        def u(b, p):
            if p[0] not in dfn[b]:
                use[b].add(p[0])
            for e in p[1]:
                if e != "*" and e[0] == "i" and e[1] not in dfn[b]:
                    use[b].add(e[1])

        def uo(b, o):
            if o[0] in ("copy", "move"):
                u(b, o[1])

        def dd(b, p):
            if p[1]:
                u(b, p)
            else:
                dfn[b].add(p[0])
        for b, bl in enumerate(blocks):
            for s in bl["s"]:
                if s[0] == "=":
                    for o in rv_operands(s[2]):
                        uo(b, o)
                    for p in rv_places(s[2]):
                        u(b, p)
                    if s[2][0] == "ref" and "*" not in s[2][2][1]:
                        if s[2][1] == "mut":
                            borrowed.add(s[2][2][0])
                    dd(b, s[1])
                else:
                    u(b, s[1])
            t = bl["t"]
            if t[0] == "call":
                uo(b, t[1])
                for o in t[2]:
                    uo(b, o)
                dd(b, t[3])
            elif t[0] in ("switch", "assert"):
                uo(b, t[1])
            elif t[0] == "return":
                use[b].add(0)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in succ(blocks[b]["t"]):
                    out |= live[s]
                new = use[b] | (out - dfn[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        argc = body["argc"]
        r = (live, borrowed | set(range(1, argc + 1)))
        self._live[key] = r
        return r

    # ---- call graph over local functions (closures belong to their creator)
    def edges(self, f):
        out = set()
        def from_ty(ti, depth=0):
            t = self.types[ti]
            if t["k"] == "fndef":
                c = t.get("callee") or {}
                if c.get("inst"):
                    out.add(c["inst"])
                for a in c.get("targs", []):
                    if self.types[a]["k"] in ("fndef", "closure"):
                        from_ty(a, depth + 1)
            elif t["k"] == "closure" and t.get("inst"):
                out.add(t["inst"])
        for body in [f["body"]] + f["promoted"]:
            for b in body["blocks"]:
                for s in b["s"]:
                    if s[0] == "=":
                        if s[2][0] == "agg" and s[2][1] == "closure" and s[2][2]:
                            out.add(s[2][2])
                        for o in rv_operands(s[2]):
                            if o[0] == "const":
                                from_ty(o[1]["ty"])
                t = b["t"]
                if t[0] == "call":
                    for o in [t[1]] + t[2]:
                        if o[0] == "const":
                            from_ty(o[1]["ty"])
        return out

    def callgraph(self):
        if not hasattr(self, "_cg"):
            self._cg = {n: {e for e in self.edges(f) if e in self.fns} for n, f in self.fns.items()}
        return self._cg

    def reachable(self, roots):
        cg = self.callgraph()
        seen, todo = set(), list(roots)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += list(cg.get(x, ()))
        return seen

    def sccs(self):
        if hasattr(self, "_scc"):
            return self._scc
        cg = self.callgraph()
        idx, low, on, st, out, comp = {}, {}, set(), [], [], {}
        import sys
        sys.setrecursionlimit(20000)

        def dfs(v):
            idx[v] = low[v] = len(idx)
            st.append(v)
            on.add(v)
            for w in cg[v]:
                if w not in idx:
                    dfs(w)
                    low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                c = set()
                while True:
                    w = st.pop()
                    on.discard(w)
                    c.add(w)
                    if w == v:
                        break
                out.append(c)
        for v in cg:
            if v not in idx:
                dfs(v)
        self._scc = {}
        for c in out:
            rec = len(c) > 1 or any(v in cg[v] for v in c)
            for v in c:
                self._scc[v] = (frozenset(c), rec)
        return self._scc

    def recursive(self, n):
        return self.sccs()[n][1]


def succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


def rv_operands(r):
    k = r[0]
    if k == "use" or k == "repeat":
        return [r[1]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return r[4]
    return []


def rv_places(r):
    if r[0] == "ref":
        return [r[2]]
    if r[0] == "discr":
        return [r[1]]
    return []
