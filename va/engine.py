"""Forward value-flow analysis of MIR over abstract values (see values.py).

States are joined at every control-flow merge; loops are run to a fixpoint; the only thing that is
kept apart is the position of iterators over sequences of which the abstract shape is known.
Function calls are analysed in context; a recursive call on a part of the input whose node kind is
unknown is not followed but becomes an opaque term (induction hypothesis)."""
import heapq
import sys
from .values import *
from . import casing, models

sys.setrecursionlimit(200000)


UNROLL = 10


class State:
    __slots__ = ("cells", "facts")

    def __init__(self, cells=None, facts=None):
        self.cells = {} if cells is None else cells
        self.facts = {} if facts is None else facts

    def copy(self):
        return State(dict(self.cells), dict(self.facts))

    def assign(self, o):
        self.cells = dict(o.cells)
        self.facts = dict(o.facts)

    def same(self, o):
        return self.cells == o.cells and self.facts == o.facts


def join_state(a, b):
    cells = dict(a.cells)
    for k, v in b.cells.items():
        w = cells.get(k)
        cells[k] = v if w is None else (w if w is v else join(w, v))
    facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
    return State(cells, facts)


class Scenario:
    """what the analysed case assumes"""

    def decide(self, eng, st, term):
        return None

    def proj(self, eng, base, step):
        return None

    def call(self, eng, st, fn, args, site):
        return None

    def nocut(self, eng, st, fn, args):
        return False

    def forcecut(self, eng, st, fn, args):
        return False

    def canon(self, eng, st, fn, vals):
        return vals


class Engine:
    def __init__(self, prog, sc=None):
        self.p = prog
        self.sc = sc or Scenario()
        self.tyof = {}
        self.frame = 0
        self.stack = []
        self.events = {}
        self.unmodelled = {}
        self.undecided = {}
        self.calls = 0
        self.snap = {}
        self.prom = {}
        self.cut_log, self.root_log, self.active = [], [], []
        self.steps = 0
        self.fns_seen = set()
        self.max_steps = 400000
        self.anchors = set()
        self.expecting = False
        self.orders = {}
        self.world = None

    # ------------------------------------------------------------------ terms and types
    def sym(self, name, ty=None):
        t = ("sym", name)
        if ty is not None:
            if isinstance(ty, str):
                ty = self.p.find_ty(ty)
            self.tyof[t] = ty
        return t

    def app(self, f, args, ty=None):
        t = ("app", f, tuple(args))
        if ty is not None and t not in self.tyof:
            self.tyof[t] = ty
        return t

    def ptype(self, v):
        """peeled type descriptor of a term"""
        ty = self.tyof.get(v)
        if ty is None:
            return None
        ty = self.p.peel(ty)
        return self.p.types[ty]

    def mkproj(self, base, step, ty=None):
        r = self.sc.proj(self, base, step)
        if r is not None:
            return r
        t = ("proj", base, step)
        if ty is None and step[0] == "f":
            bt = self.ptype(base)
            if bt is not None:
                if bt["k"] == "adt":
                    try:
                        ty = bt["variants"][step[1] or 0]["fields"][step[2]].get("ty")
                    except IndexError:
                        ty = None
                elif bt["k"] == "tuple" and step[2] < len(bt["args"]):
                    ty = bt["args"][step[2]]
        if ty is not None and t not in self.tyof:
            self.tyof[t] = ty
        return t

    def materialize(self, term, variant=None):
        """an opaque struct (or enum of known variant) as explicit fields"""
        bt = self.ptype(term)
        if bt is None:
            return None
        if bt["k"] == "tuple":
            return ("tup", tuple(self.mkproj(term, ("f", None, i), a) for i, a in enumerate(bt["args"])))
        if bt["k"] != "adt" or bt["adt"] == "union":
            return None
        if bt["adt"] == "enum":
            if variant is None:
                return None
            v = bt["variants"][variant]
            return ("adt", bt["path"], variant, tuple(self.mkproj(term, ("f", variant, i), f.get("ty")) for i, f in enumerate(v["fields"])))
        v = bt["variants"][0]
        return ("adt", bt["path"], 0, tuple(self.mkproj(term, ("f", None, i), f.get("ty")) for i, f in enumerate(v["fields"])))

    def adt_info(self, path):
        i = self.p.adt_ty(path)
        return self.p.types[i] if i is not None else None

    def vdiscr(self, path, variant):
        t = self.adt_info(path)
        if t is None or t["adt"] != "enum":
            return variant
        return t["variants"][variant]["discr"]

    def variant_of_discr(self, t, d):
        for i, v in enumerate(t["variants"]):
            if v["discr"] == d:
                return i
        return None

    # ------------------------------------------------------------------ decisions
    def decide(self, st, term):
        """value of an undecided boolean / enum term: fact, scenario, or None"""
        if term in st.facts:
            return st.facts[term]
        r = self.sc.decide(self, st, term)
        if r is None:
            self.undecided[term] = self.undecided.get(term, 0) + 1
        return r

    def truth(self, st, v):
        """True / False / None"""
        if v[0] == "c":
            return bool(v[2])
        if v[0] == "app" and v[1] == "not":
            r = self.truth(st, v[2][0])
            return None if r is None else not r
        if v[0] == "app" and v[1] == "and":
            a, b = self.truth(st, v[2][0]), self.truth(st, v[2][1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if v[0] == "app" and v[1] == "or":
            a, b = self.truth(st, v[2][0]), self.truth(st, v[2][1])
            if a or b:
                return True
            return False if a is False and b is False else None
        if v[0] == "phi":
            rs = {self.truth(st, x) for x in v[1]}
            return rs.pop() if len(rs) == 1 else None
        if is_term(v):
            r = self.decide(st, v)
            return None if r is None else bool(r)
        if v[0] == "top":
            self.blind = self.blind or v
        return None

    def simp_bool(self, st, v):
        r = self.truth(st, v)
        return v if r is None else cbool(r)

    def variant(self, st, v):
        """variant index of an enum value, or None"""
        if v[0] == "adt":
            return v[2]
        if is_term(v):
            return self.decide(st, v)
        return None

    # ------------------------------------------------------------------ paths
    def get(self, v, step):
        k = step[0]
        t = v[0]
        if t == "phi":
            r = None
            for a in v[1]:
                g = self.get(a, step)
                if g is not None:
                    r = join(r, g)
            return r
        if t == "top":
            return v
        if k == "f":
            if t == "adt":
                if step[1] is not None and v[2] != step[1]:
                    return None
                return v[3][step[2]] if step[2] < len(v[3]) else top("field")
            if t == "tup":
                return v[1][step[2]] if step[2] < len(v[1]) else top("field")
            if t == "clo":
                return v[2][step[2]]
            if t == "iterst":
                return self.get(resolve1(v), step)
            if t in TERM:
                return self.mkproj(v, ("f", step[1], step[2]), step[3] if len(step) > 3 else None)
            if t == "uninit":
                return v
            if t == "range":
                return v[1 + step[2]]
            return top("field of %s" % t)
        if k == "cur":
            return v[2] if t == "iterst" else v
        if k == "seg":
            v2 = v if t == "seq" else self.as_seq(v)
            if v2 is None:
                return top("element")
            fs = v2[1]
            return seg_val(fs[step[1]]) if step[1] < len(fs) else None
        if k == "ent":
            v2 = v if t in ("map", "set") else self.as_map(v)
            if v2 is None:
                return top("entry")
            for e in v2[2]:
                if e[0] == step[1]:
                    return e[1]
            return None
        raise Limit("path step %r" % (step,))

    def put(self, v, path, new, st=None):
        if not path:
            return new
        step, rest = path[0], path[1:]
        t = v[0]
        if t == "phi":
            alts = []
            for a in v[1]:
                if a[0] == "adt" and step[0] == "f" and step[1] is not None and a[2] != step[1]:
                    continue
                alts.append(self.put(a, path, new))
            return mkphi(alts) if alts else v
        if t == "uninit":
            return self.put_fresh(path, new)
        if t == "top":
            return v
        if step[0] == "f":
            if t in TERM:
                m = self.materialize(v, step[1])
                if m is None:
                    return top("write into opaque value")
                v, t = m, m[0]
            if t == "iterst":
                return self.put(resolve1(v), path, new)
            if t == "adt":
                fs = list(v[3])
                fs[step[2]] = self.put(fs[step[2]], rest, new)
                return ("adt", v[1], v[2], tuple(fs))
            if t == "tup":
                fs = list(v[1])
                while len(fs) <= step[2]:
                    fs.append(UNINIT)
                fs[step[2]] = self.put(fs[step[2]], rest, new)
                return ("tup", tuple(fs))
            if t == "clo":
                fs = list(v[2])
                fs[step[2]] = self.put(fs[step[2]], rest, new)
                return ("clo", v[1], tuple(fs))
            return top("write to field of %s" % t)
        if step[0] == "cur":
            if t == "iterst":
                return ("iterst", v[1], self.put(v[2], rest, new), v[3])
            return self.put(v, rest, new)
        if step[0] == "seg":
            v = v if t == "seq" else self.as_seq(v)
            if v is None:
                return top("write to element")
            segs = list(v[1])
            i = step[1]
            s = segs[i]
            segs[i] = map_seg(s, lambda x: self.put(x, rest, new))
            return ("seq", tuple(segs))
        if step[0] == "ent":
            v = v if t in ("map", "set") else self.as_map(v)
            if v is None:
                return top("write to entry")
            return (v[0], v[1], tuple((e[0], self.put(e[1], rest, new), e[2], e[3]) if e[0] == step[1] else e for e in v[2]))
        raise Limit("write step %r" % (step,))

    def put_fresh(self, path, new):
        return new

    def read(self, st, cell, path):
        v = st.cells.get(cell, UNINIT)
        for s in path:
            v = self.get(v, s)
            if v is None:
                return top("unreachable projection")
        return v

    def write(self, st, cell, path, new):
        if not path:
            st.cells[cell] = new
        else:
            st.cells[cell] = self.put(st.cells.get(cell, UNINIT), path, new)

    def deref(self, st, v):
        n = 0
        while v[0] == "ref":
            v = self.read(st, v[1], v[2])
            n += 1
            if n > 50:
                raise Limit("reference cycle")
        if v[0] == "phi" and any(a[0] == "ref" for a in v[1]):
            r = None
            for a in v[1]:
                r = join(r, self.deref(st, a))
            return r
        return v

    def deepderef(self, st, v, depth=0):
        """value with references replaced by what they point to"""
        v = self.deref(st, v)
        if depth > 12:
            return v
        t = v[0]
        if t == "adt":
            return ("adt", v[1], v[2], tuple(self.deepderef(st, x, depth + 1) if x is not None else x for x in v[3]))
        if t == "tup":
            return ("tup", tuple(self.deepderef(st, x, depth + 1) for x in v[1]))
        if t == "clo":
            return ("clo", v[1], tuple(self.deepderef(st, x, depth + 1) for x in v[2]))
        if t == "seq":
            return ("seq", tuple(map_seg(s, lambda x: self.deepderef(st, x, depth + 1)) for s in v[1]))
        if t == "map":
            return (t, v[1], tuple((e[0], self.deepderef(st, e[1], depth + 1), e[2], e[3]) for e in v[2]))
        if t == "phi":
            return mkphi([self.deepderef(st, x, depth + 1) for x in v[1]])
        return v

    def store(self, st, ref, new):
        """writes through a &mut value"""
        if ref[0] == "ref":
            self.write(st, ref[1], ref[2], new)
        elif ref[0] == "phi":
            for a in ref[1]:
                if a[0] == "ref":
                    self.write(st, a[1], a[2], join(self.read(st, a[1], a[2]), new))
        # otherwise: a reference whose target is not tracked (fresh temporary)

    # ------------------------------------------------------------------ collections
    def as_seq(self, v):
        t = v[0]
        if t == "seq":
            if any(seg_val(s)[0] == "iterst" for s in v[1] if s[0] != "bag"):
                return resolve_shallow(v)
            return v
        if t in TERM:
            bt = self.ptype(v)
            if bt is not None:
                if bt["k"] == "array" and bt.get("len") is not None and bt["len"] <= 16:
                    return ("seq", tuple(("1", self.mkproj(v, ("idx", i), bt["args"][0])) for i in range(bt["len"])))
                if bt["args"] if bt.get("args") else None:
                    if bt["k"] in ("slice", "array") or bt["path"] in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
                        return ("seq", (("*", v, self.mkproj(v, ("elem",), bt["args"][0]), True),))
            return ("seq", (("*", v, self.mkproj(v, ("elem",)), True),))
        if t == "phi":
            r = None
            for a in v[1]:
                s = self.as_seq(a)
                if s is None:
                    return None
                r = join(r, s)
            return r if r[0] == "seq" else None
        if t == "uninit":
            return None
        return None

    def as_map(self, v):
        t = v[0]
        if t in ("map", "set"):
            if any(e[1][0] == "iterst" for e in v[2]):
                return (t, v[1], tuple((e[0], resolve1(e[1]), e[2], e[3]) for e in v[2]))
            return v
        if t in TERM:
            bt = self.ptype(v)
            p = bt["path"] if bt is not None and bt["k"] == "adt" else ""
            kind = "btree" if "btree" in p else "hash"
            if "set::" in p:
                return ("set", kind, ((self.mkproj(v, ("key",), bt["args"][0]), UNIT, "*", v),))
            a = bt["args"] if bt else [None, None]
            if "map::" in p or not p:
                return ("map", kind, ((self.mkproj(v, ("key",), a[0]), self.mkproj(v, ("val",), a[1] if len(a) > 1 else None), "*", v),))
            return None
        if t == "phi":
            r = None
            for a in v[1]:
                s = self.as_map(a)
                if s is None:
                    return None
                r = join(r, s)
            return r if r[0] in ("map", "set") else None
        return None

    # ------------------------------------------------------------------ equality of abstract values
    correlated = False
    blind = None          # a condition of which nothing is known

    def eq(self, st, a, b):
        """True / False / None"""
        a, b = self.deref(st, a), self.deref(st, b)
        if a[0] == "phi" or b[0] == "phi":
            rs = {self.eq(st, x, y) for x in phi_alts(a) for y in phi_alts(b)}
            if len(rs) > 1 and None not in rs:
                # which of the values it is goes unnoticed on both branches
                self.correlated = True
            return rs.pop() if len(rs) == 1 else None
        if a[0] == "top" or b[0] == "top":
            return None
        if a == b:
            return True
        if a[0] == "proc" or b[0] == "proc":
            # the same key of another element
            r = self.eq(st, a[1] if a[0] == "proc" else a, b[1] if b[0] == "proc" else b)
            if a[0] == b[0]:
                return r
            return False if r is not None else None
        if a[0] == "adt" and b[0] == "adt":
            if a[2] != b[2]:
                return False
            return self.eq_all(st, a[3], b[3])
        if a[0] == "adt" and is_term(b):
            a, b = b, a
        if is_term(a) and b[0] == "adt":
            r = self.decide(st, a)
            if r is not None and r != b[2]:
                return False
            if r is not None:
                m = self.materialize(a, r)
                if m is not None:
                    return self.eq_all(st, m[3], b[3])
            return None
        if a[0] == "tup" and b[0] == "tup" and len(a[1]) == len(b[1]):
            return self.eq_all(st, a[1], b[1])
        if a[0] == "c" and b[0] == "c":
            return a[2] == b[2]
        if a[0] == "seq" and b[0] == "seq":
            if all(s[0] == "1" for s in a[1] + b[1]):
                if len(a[1]) != len(b[1]):
                    return False
                return self.eq_all(st, [s[1] for s in a[1]], [s[1] for s in b[1]])
            return None
        if a[0] in ("str", "sym", "proj", "app") and b[0] in ("str", "sym", "proj", "app"):
            from . import absstr
            r = absstr.str_eq(a, b)
            if r is not None:
                return r
            r = self.eq_variants(st, a, b)
            if r is not None:
                return r
            t = ("app", "eq", (a, b) if repr(a) <= repr(b) else (b, a))
            r = self.decide(st, t)
            return None if r is None else bool(r)
        return None

    def eq_variants(self, st, a, b):
        """equality of two opaque enum values whose variants are known"""
        if not is_term(a) or not is_term(b):
            return None
        ta, tb = self.ptype(a), self.ptype(b)
        if ta is None or tb is None or ta["k"] != "adt" or ta["adt"] != "enum" or ta["path"] != tb.get("path"):
            return None
        x, y = self.decide(st, a), self.decide(st, b)
        if x is None or y is None:
            return None
        return False if x != y else True if not ta["variants"][x]["fields"] else None

    def eq_all(self, st, xs, ys):
        res = True
        for x, y in zip(xs, ys):
            r = self.eq(st, x, y)
            if r is False:
                return False
            if r is None:
                res = None
        return res

    def eqv(self, st, a, b):
        r = self.eq(st, a, b)
        if r is not None:
            return cbool(r)
        a, b = self.deref(st, a), self.deref(st, b)
        return ("app", "eq", (a, b) if repr(a) <= repr(b) else (b, a))

    # ------------------------------------------------------------------ iteration
    def iter_of(self, st, v, by_mut=None):
        """the iterator over a value (collection, iterator, &mut collection, Option, range)"""
        if v[0] == "ref":
            tgt = self.deref(st, v)
            if tgt[0] == "iter":
                return tgt
            if tgt[0] == "phi" and all(x[0] == "iter" for x in tgt[1]):
                return tgt
            return self.iter_mut(st, v)
        if v[0] == "iter":
            return v
        if v[0] == "phi" and any(a[0] == "ref" for a in v[1]):
            v = self.deref(st, v)
        if v[0] == "range":
            return models.range_iter(self, st, v)
        m = v if v[0] in ("seq", "map", "set") else None
        if m is None:
            if v[0] == "adt" and v[1] == OPT:
                return ("iter", (("1", v[3][0]),) if v[2] == 1 else (), 0, False)
            if v[0] == "adt" and v[1] == RES:
                return ("iter", (("1", v[3][0]),) if v[2] == 0 else (), 0, False)
            bt = self.ptype(v) if is_term(v) else None
            if bt is not None and bt["k"] == "adt" and bt["path"] == OPT:
                r = self.decide(st, v)
                e = self.mkproj(v, ("f", 1, 0))
                return ("iter", () if r == 0 else (("1" if r == 1 else "?", e),), 0, False)
            if v[0] == "phi":
                s = None
                for a in v[1]:
                    i = self.iter_of(st, a)
                    s = join(s, i)
                if s[0] == "iter":
                    return s
                return ("iter", (("*", v, top("element of alternatives"), False),), 0, False)
            if bt is not None and bt["k"] == "adt" and ("map::" in bt["path"] or "set::" in bt["path"]):
                m = self.as_map(v)
            else:
                m = self.as_seq(v)
        if m is None:
            return ("iter", (("*", v, top("element of " + v[0]), False),), 0, False)
        return ("iter", self.coll_segs(m), 0, False)

    def coll_segs(self, m):
        m2 = m
        if m[0] == "seq":
            return self.as_seq(m)[1]
        m2 = self.as_map(m)
        segs = []
        known = m2[1] == "btree" and all(e[2] in "01?" and models.lit_text(e[0]) is not None for e in m2[2])
        for e in sorted(m2[2], key=lambda e: models.lit_text(e[0]).encode()) if known else m2[2]:
            if e[2] == "0":
                continue
            v = e[0] if m2[0] == "set" else ("tup", (e[0], e[1]))
            if e[2] in ("1", "?"):
                segs.append((e[2], v))
            else:
                segs.append((e[2], e[3], v, True))
        if not segs or known:
            return tuple(segs)
        return (("bag", tuple(segs), "hash" if m2[1] == "hash" else ("sorted", tuple(e[0] for e in m2[2]))),)

    def iter_mut(self, st, ref, what="both"):
        """iterator of &mut handles into the collection behind ref"""
        tgt = self.deref(st, ref)
        while tgt[0] == "phi":
            j = self.as_map(tgt) or self.as_seq(tgt)
            if j is None:
                return ("iter", (("*", ref, top("element"), False),), 0, False)
            tgt = j
            self.store(st, ref, tgt)
        if ref[0] != "ref":
            return self.iter_of(st, tgt)
        # the last reference in a chain
        while True:
            inner = self.read(st, ref[1], ref[2])
            if inner[0] == "ref":
                ref = inner
            else:
                break
        if tgt[0] == "adt" and tgt[1] == OPT:
            return ("iter", (("1", ("ref", ref[1], ref[2] + (("f", 1, 0),))),) if tgt[2] == 1 else (), 0, False)
        if is_term(tgt):
            bt = self.ptype(tgt)
            if bt is not None and bt["k"] == "adt" and ("map::" in bt["path"] or "set::" in bt["path"]):
                tgt = self.as_map(tgt)
            else:
                tgt = self.as_seq(tgt)
            if tgt is None:
                return ("iter", (("*", ref, top("element"), False),), 0, False)
            self.store(st, ref, tgt)
        if tgt[0] == "seq":
            tgt2 = self.as_seq(tgt)
            if any(s[0] == "bag" for s in tgt2[1]):
                tgt2 = ("seq", tuple(flat(tgt2[1])))
            if tgt2 != tgt:
                self.store(st, ref, tgt2)
            segs = []
            for i, s in enumerate(tgt2[1]):
                if s[0] in ("1", "?"):
                    segs.append((s[0], ("ref", ref[1], ref[2] + (("seg", i),))))
                else:
                    segs.append((s[0], s[1], ("ref", ref[1], ref[2] + (("seg", i), ("cur",))), s[3]))
            return ("iter", tuple(segs), 0, False)
        if tgt[0] in ("map", "set"):
            m = self.as_map(tgt)
            if m != tgt:
                self.store(st, ref, m)
            segs = []
            known = m[1] == "btree" and all(e[2] in "01?" and models.lit_text(e[0]) is not None for e in m[2])
            for e in sorted(m[2], key=lambda e: models.lit_text(e[0]).encode()) if known else m[2]:
                p = ref[2] + (("ent", e[0]),) + (() if e[2] in ("1", "?") else (("cur",),))
                r = ("ref", ref[1], p)
                v = r if what == "values" else ("tup", (e[0], r))
                segs.append((e[2], v) if e[2] in ("1", "?") else (e[2], e[3], v, True))
            if not segs or known:
                return ("iter", tuple(segs), 0, False)
            return ("iter", (("bag", tuple(segs), "hash" if m[1] == "hash" else ("sorted", tuple(e[0] for e in m[2]))),), 0, False)
        return ("iter", (("*", ref, top("element of " + tgt[0]), False),), 0, False)

    def handles(self, v, acc=None):
        """(cell, path) of collection slots under iteration referenced from v"""
        if acc is None:
            acc = []
        if isinstance(v, tuple):
            if v and v[0] == "ref":
                if ("cur",) in v[2]:
                    i = v[2].index(("cur",))
                    # innermost slot
                    for j in range(len(v[2]) - 1, -1, -1):
                        if v[2][j] == ("cur",):
                            i = j
                            break
                    acc.append((v[1], v[2][:i]))
                return acc
            for x in v:
                self.handles(x, acc)
        return acc

    def open_elem(self, st, elem):
        for c, p in self.handles(elem):
            v = self.read(st, c, p)
            if v[0] != "iterst":
                self.write(st, c, p, ("iterst", None, v, v))
            else:
                self.write(st, c, p, ("iterst", join(v[1], v[2]), v[3], v[3]))

    def close_elem(self, st, elem):
        for c, p in self.handles(elem):
            v = self.read(st, c, p)
            if v[0] == "iterst":
                self.write(st, c, p, join(v[1], v[2]))

    def gen_state(self, snap, st, src, elem):
        """end of one iteration over a repeated segment: what was appended becomes repeated"""
        dep = leaves(elem)
        for c, p in self.handles(elem):
            v = self.read(st, c, p)
            dep |= leaves(v)
        ren = {d: ("prev", d) for d in dep if d[0] in ("proj", "ix", "ctr")}
        for c, old in snap.cells.items():
            new = st.cells.get(c)
            if new is None or new is old or new == old:
                continue
            st.cells[c] = self.gen(old, new, src, dep, ren)
        for f in list(st.facts):
            if f not in snap.facts and leaves(f) & dep:
                del st.facts[f]

    def counted(self, snap, st, src):
        """the state before the iteration, with the counters that run along with it"""
        def put(old, new):
            if new[0] == "ctr" and new[1] == src and old[0] == "c":
                return new
            if old[0] == "adt" and new[0] == "adt" and old[1:3] == new[1:3]:
                return ("adt", old[1], old[2], tuple(put(x, y) if x is not None and y is not None else x for x, y in zip(old[3], new[3])))
            if old[0] == "tup" and new[0] == "tup" and len(old[1]) == len(new[1]):
                return ("tup", tuple(put(x, y) for x, y in zip(old[1], new[1])))
            return old
        hits = {}
        for c, old in snap.cells.items():
            new = st.cells.get(c)
            if new is not None and new is not old:
                v = put(old, new)
                if v != old:
                    hits[c] = v
        if not hits:
            return None
        out = snap.copy()
        out.cells.update(hits)
        return out

    def gen(self, old, new, src, dep, ren):
        if old == new or new[0] in ("iterst", "iter"):
            return new
        if old[0] == "iterst":
            return new
        if old[0] == "seq" and new[0] == "seq":
            a, b = old[1], new[1]
            i = 0
            while i < len(a) and i < len(b) and a[i] == b[i]:
                i += 1
            if i == len(a):
                return ("seq", a + self.gen_segs(b[i:], src))
            if len(a) == len(b):
                return ("seq", tuple(self.gen_seg_pair(x, y, src, dep, ren) for x, y in zip(a, b)))
            return new
        if old[0] in ("map", "set") and new[0] == old[0]:
            d = {e[0]: e for e in old[2]}
            n = {e[0]: e for e in new[2]}
            out = []
            redone = set()
            for o in old[2]:
                # entries of the element being visited: the others keep theirs until it is their turn
                if not (leaves(o[0]) & dep) or o[2] not in ("+", "*"):
                    continue
                cur, pk = n.get(o[0]), ("proc", o[0])
                if cur is not None and (cur == o or cur[1][0] == "iterst") and pk not in n:
                    continue
                redone.add(o[0])
                redone.add(pk)
                now = (pk, cur[1], cur[2], src) if cur is not None else (pk, UNINIT, "0", src)
                if pk in n:
                    now = join_entries((n[pk],), (now,))[0]
                out.append(o)
                out.append(now)
            skip = set()
            for e in new[2]:
                if e[0] in redone or e[0] in skip:
                    continue
                if e[0] in d:
                    o = d[e[0]]
                    out.append((e[0], self.gen(o[1], e[1], src, dep, ren), e[2], e[3]))
                elif leaves(e[0]) & dep:
                    m = {"1": "+", "?": "*"}.get(e[2], e[2])
                    s = src if e[2] in ("1", "?") or e[3] == src else ("nest", src, e[3])
                    if e[0][0] == "proc":
                        if e[0][1] not in n and e[2] == "+" and e[3] == src:
                            e = (e[0], e[1], "*", e[3])     # this iteration did not add one
                        out.append(e)
                        continue
                    now = (("proc", e[0]), e[1], m, s)
                    if now[0] in n:
                        x = n[now[0]]
                        now = (now[0], join(x[1], now[1]), "+" if x[2] == m == "+" else "*", s)
                        out = [y for y in out if y[0] != now[0]]
                        skip.add(now[0])
                    out.append(now)
                else:
                    out.append(e)
            return (new[0], new[1], tuple(out))
        if old[0] == "adt" and new[0] == "adt" and old[1:3] == new[1:3]:
            return ("adt", new[1], new[2], tuple(self.gen(x, y, src, dep, ren) for x, y in zip(old[3], new[3])))
        if old[0] == "tup" and new[0] == "tup" and len(old[1]) == len(new[1]):
            return ("tup", tuple(self.gen(x, y, src, dep, ren) for x, y in zip(old[1], new[1])))
        if old[0] == "clo" and new[0] == "clo" and old[1] == new[1]:
            return ("clo", new[1], tuple(self.gen(x, y, src, dep, ren) for x, y in zip(old[2], new[2])))
        if old[0] == "c" and old[1] == "int" and new[0] == "c" and new[1] == "int" and new[2] != old[2]:
            return ("ctr", src, old[2], new[2] - old[2])
        if new[0] == "app" and new[1] == "add" and new[2][0][0] == "ctr" and new[2][0][1] == src:
            return new[2][0]
        if old[0] == "str" and new[0] == "str" and new[1][:len(old[1])] == old[1] and len(new[1]) > len(old[1]):
            return mkstr(old[1] + (("t", ("app", "repeated", (("str", new[1][len(old[1]):]),))),))
        if new[0] == "str" and any(s[0] == "t" and s[1][0] == "app" and s[1][1] == "repeated" for s in new[1]):
            i = [j for j, s in enumerate(new[1]) if s[0] == "t" and s[1][0] == "app" and s[1][1] == "repeated"][0]
            return mkstr(new[1][:i + 1])
        return subst(new, ren) if ren else new

    def gen_seg_pair(self, x, y, src, dep, ren):
        if x == y or x[0] != y[0]:
            return y
        if x[0] in ("1", "?"):
            return (y[0], self.gen(x[1], y[1], src, dep, ren))
        if x[0] in ("+", "*"):
            return (y[0], y[1], self.gen(x[2], y[2], src, dep, ren), y[3])
        return y

    def gen_segs(self, segs, src):
        done, cur = [], []
        for s in segs:
            if s[0] in ("+", "*") and s[1] == src and s[3] in OPEN:
                done.append(s)
            elif s[0] == "1":
                cur.append(("+", src, s[1], "open"))
            elif s[0] == "?":
                cur.append(("*", src, s[1], "part"))
            elif s[0] in ("+", "*"):
                cur.append((s[0], ("nest", src, s[1]), s[2], s[3]))
            else:
                cur.append(s)
        if not done:
            return tuple(cur)
        if not cur:
            # an iteration without an append
            return tuple(("*", s[1], s[2], "part") for s in done)
        if len(done) == len(cur) and all(a[0] in "+*" and b[0] in "+*" and a[1] == b[1] for a, b in zip(done, cur)):
            out = []
            for a, b in zip(done, cur):
                flag = a[3] if b[0] == "+" and b[3] == "open" else "part"
                out.append(("+" if flag == "open" else "*", a[1], join(a[2], b[2]), flag))
            return tuple(out)
        v = None
        for s in done + cur:
            if s[0] == "bag":
                return tuple(done + cur)
            v = join(v, s[2])
        return (("*", src, v, "part"),)

    def finish_src(self, v, src):
        """the iteration over src is complete"""
        if not isinstance(v, tuple) or not v:
            return v
        t = v[0]
        if t == "seq":
            return ("seq", tuple((("+", s[1], s[2], True) if s[3] in ("open", "each") else (s[0], s[1], s[2], False))
                                 if s[0] in ("+", "*") and s[1] == src and s[3] in OPEN else s for s in v[1]))
        if t in ("adt",):
            fs = tuple(self.finish_src(x, src) for x in v[3])
            return v if fs == v[3] else ("adt", v[1], v[2], fs)
        if t == "tup":
            fs = tuple(self.finish_src(x, src) for x in v[1])
            return v if fs == v[1] else ("tup", fs)
        if t in ("map", "set"):
            es = v[2]
            mine = lambda e: e[0][0] == "proc" and (e[3] == src or (isinstance(e[3], tuple) and e[3] and e[3][0] == "nest" and e[3][1] == src))
            done = {e[0][1] for e in es if mine(e)}
            if done:
                es = tuple((e[0][1], e[1], e[2], self.proc_src(es, e)) if mine(e) else e
                           for e in es if e[0] not in done and not (mine(e) and e[2] == "0"))
            return (t, v[1], tuple((e[0], self.finish_src(e[1], src), e[2], e[3]) for e in es))
        if t == "phi":
            return mkphi([self.finish_src(x, src) for x in v[1]])
        return v

    def proc_src(self, es, e):
        for o in es:
            if o[0] == e[0][1]:
                return o[3]
        return e[3]

    def finish_state(self, st, src):
        for c, v in st.cells.items():
            if v[0] in ("seq", "adt", "tup", "map", "set", "phi"):
                st.cells[c] = self.finish_src(v, src)

    def each(self, st, it, body):
        """runs body(st, elem, mult) for all elements of it; st is updated in place"""
        segs = it[1][it[2]:] if it[0] == "iter" else it
        for s in segs:
            if s[0] == "1":
                body(st, s[1], "1")
            elif s[0] == "?":
                s2 = st.copy()
                try:
                    body(s2, s[1], "?")
                except Diverge:
                    continue
                st.assign(join_state(st, s2))
            elif s[0] == "bag":
                snap = st.copy()
                self.each(st, s[1], body)
                self.regroup(snap, st, bag_order([s]))
            else:
                self.generic(st, s, body)

    def regroup(self, snap, st, order):
        """what a loop over an unordered (or sorted) collection appended to a sequence comes in the order of the iteration"""
        for c, old in snap.cells.items():
            new = st.cells.get(c)
            if new is not None and new is not old and new != old:
                st.cells[c] = self.rg(old, new, order)

    def rg(self, old, new, order):
        if old == new:
            return new
        if old[0] == "seq" and new[0] == "seq" and new[1][:len(old[1])] == old[1]:
            extra = new[1][len(old[1]):]
            if len(extra) == 1 and extra[0][0] in ("bag", "1", "?"):
                return new
            o = order
            if o != "hash" and len(o[1]) != len(extra):
                o = ("sorted", o[1], "part")
            return ("seq", old[1] + (("bag", tuple(flat(extra)), o),))
        if old[0] == new[0] == "adt" and old[1:3] == new[1:3] and len(old[3]) == len(new[3]):
            return ("adt", new[1], new[2], tuple(self.rg(a, b, order) for a, b in zip(old[3], new[3])))
        if old[0] == new[0] == "tup" and len(old[1]) == len(new[1]):
            return ("tup", tuple(self.rg(a, b, order) for a, b in zip(old[1], new[1])))
        if old[0] == new[0] == "clo" and old[1] == new[1] and len(old[2]) == len(new[2]):
            return ("clo", new[1], tuple(self.rg(a, b, order) for a, b in zip(old[2], new[2])))
        if old[0] == new[0] and old[0] in ("map", "set"):
            d = {e[0]: e for e in old[2]}
            return (new[0], new[1], tuple((e[0], self.rg(d[e[0]][1], e[1], order), e[2], e[3]) if e[0] in d and d[e[0]][2] == "1" else e for e in new[2]))
        return new

    def generic(self, st, s, body):
        zero = st.copy()
        snap = st.copy()
        src, elem = s[1], s[2]
        try:
            self.open_elem(st, elem)
            body(st, elem, s[0])
            for n in range(12):
                before = st.copy()
                self.gen_state(snap, before, src, elem)
                st.assign(before)
                self.open_elem(st, elem)
                body(st, elem, s[0])
                after = st.copy()
                self.gen_state(snap, after, src, elem)
                merged = join_state(before, after)
                if merged.same(before):
                    st.assign(before)
                    break
                st.assign(merged)
            else:
                raise Limit("no fixpoint for an iteration")
            self.close_elem(st, elem)
            self.finish_state(st, src)
        except Diverge:
            if s[0] == "+":
                raise
            st.assign(zero)
            return
        if s[0] == "*":
            st.assign(join_state(zero, st))

    # ------------------------------------------------------------------ iterator protocol
    def iter_next(self, st, ref, frame_key):
        """Iterator::next on the iterator behind ref: list of (value, state)"""
        it = self.deref(st, ref)
        if it[0] == "phi":
            out = []
            for a in sorted(it[1], key=repr):
                s2 = st.copy()
                self.store(s2, ref, a)
                out += self.iter_next(s2, ref, frame_key)
            return out
        if it[0] == "range":
            it = models.range_iter(self, st, it)
        if it[0] != "iter":
            if is_opaque(it):
                e = top("next of opaque iterator")
                return [(NONE, st.copy()), (some(e), st)]
            it = self.iter_of(st, it)
        if it[2] == 0 and not it[3]:
            self.orders.pop((frame_key, ref), None)
            if any(s[0] == "bag" for s in it[1]):
                self.orders[frame_key, ref] = (bag_order(it[1]), st.copy())
        if any(s[0] == "bag" for s in it[1]):
            it = ("iter", tuple(flat(it[1])), it[2], it[3])
        segs, pos, vis = it[1], it[2], it[3]
        out = []
        cur = st
        while True:
            if pos >= len(segs):
                if (frame_key, ref) in self.orders:
                    o, snap = self.orders[frame_key, ref]
                    if cur is st:
                        cur = st.copy()
                    self.regroup(snap, cur, o)
                self.store(cur, ref, ("iter", segs, len(segs) + 1, False))
                out.append((NONE, cur))
                return out
            s = segs[pos]
            if s[0] == "1":
                self.store(cur, ref, ("iter", segs, pos + 1, False))
                out.append((some(s[1]), cur))
                return out
            if s[0] == "?":
                s2 = cur.copy()
                self.store(s2, ref, ("iter", segs, pos + 1, False))
                out.append((some(s[1]), s2))
                cur = cur.copy()
                pos += 1
                continue
            key = (frame_key, ref, pos)
            src, elem = s[1], s[2]
            if not vis:
                self.snap[key] = cur.copy()
                s2 = cur.copy()
                self.store(s2, ref, ("iter", segs, pos, True))
                self.open_elem(s2, elem)
                out.append((some(elem), s2))
                if s[0] == "+":
                    return out
                cur = cur.copy()
                pos += 1
                continue
            snap = self.snap.get(key)
            s2 = cur.copy()
            if snap is not None:
                self.gen_state(snap, s2, src, elem)
                again = self.counted(snap, s2, src)
                if again is not None:
                    # a counter runs along: visit the element once more, at any position
                    self.snap[key] = again.copy()
                    self.store(again, ref, ("iter", segs, pos, 2))
                    self.open_elem(again, elem)
                    out.append((some(elem), again))
                    return out
            s3 = s2.copy()
            self.store(s2, ref, ("iter", segs, pos, vis))
            self.open_elem(s2, elem)
            out.append((some(elem), s2))
            self.close_elem(s3, elem)
            self.finish_state(s3, src)
            cur = s3
            pos += 1
            vis = False

    # ------------------------------------------------------------------ functions
    def event(self, kind, site, detail=""):
        k = (kind, site, detail)
        self.events[k] = self.events.get(k, 0) + 1

    def call_value(self, st, f, args, site=None, dty=None):
        f = self.deref(st, f)
        if f[0] == "clo":
            return self.run(self.p.fns[f[1]], [f] + list(args), st)
        if f[0] == "fn":
            r = self.call(f[1], list(args), st, site or "fn value", dty)
            return self.single(st, r)
        if f[0] == "phi":
            res, acc = None, None
            for a in sorted(f[1], key=repr):
                s2 = st.copy()
                try:
                    v = self.call_value(s2, a, args, site, dty)
                except Diverge:
                    continue
                res = join(res, v)
                acc = s2 if acc is None else join_state(acc, s2)
            if acc is None:
                raise Diverge()
            st.assign(acc)
            return res
        return self.app("call", [f] + [self.deepderef(st, a) for a in args], dty)

    def single(self, st, outs):
        """joins several outcomes into st"""
        if not outs:
            raise Diverge()
        v, s = outs[0]
        for v2, s2 in outs[1:]:
            v = join(v, v2)
            s = join_state(s, s2)
        st.assign(s)
        return v

    def eta(self, v):
        """a struct rebuilt from all the parts of an opaque value is that value"""
        if v[0] == "adt" and v[3] and v[3][0] is not None and v[3][0][0] == "proj" and v[3][0][2][:3] == ("f", None, 0):
            b = v[3][0][1]
            bt = self.ptype(b)
            if bt is not None and bt["k"] == "adt" and bt["path"] == v[1] and bt["adt"] == "struct" and bt.get("local") and \
                    all(x is not None and x == self.mkproj(b, ("f", None, i)) for i, x in enumerate(v[3])):
                return b
        return v

    def opaque_node(self, st, v):
        """is v (a part of) a schema of unknown kind?"""
        v = self.eta(self.deref(st, v))
        if v[0] in TERM:
            bt = self.ptype(v)
            if bt is not None and bt["k"] == "adt" and bt.get("local"):
                if bt["adt"] == "enum":
                    return self.decide(st, v) is None
                # a struct: opaque unless its enum fields are decided
                m = self.materialize(v)
                if m is None:
                    return True
                for x in m[3]:
                    xb = self.ptype(x) if x[0] in TERM else None
                    if xb is not None and xb["k"] == "adt" and xb.get("local") and xb["adt"] == "enum" and self.decide(st, x) is None:
                        return True
                if not any((self.ptype(x) or {}).get("adt") == "enum" and (self.ptype(x) or {}).get("local") for x in m[3] if x[0] in TERM):
                    return True
                return False
            return False
        if v[0] == "adt":
            bt = self.adt_info(v[1])
            if bt is not None and bt.get("local"):
                for x in v[3]:
                    if x is not None and x[0] in TERM:
                        xb = self.ptype(x)
                        if xb is not None and xb["k"] == "adt" and xb.get("local") and xb["adt"] == "enum" and self.decide(st, x) is None:
                            return True
        return False

    def opaque_parts(self, st, v, depth=0):
        """does the (explicit) compound v hold nodes of unknown kind?"""
        v = self.deref(st, v)
        if depth > 6:
            return False
        if self.opaque_node(st, v):
            return True
        if v[0] == "adt":
            return any(self.opaque_parts(st, x, depth + 1) for x in v[3] if x is not None)
        if v[0] == "seq":
            return any(self.opaque_parts(st, seg_val(s), depth + 1) for s in flat(v[1]))
        if v[0] in ("map",):
            return any(self.opaque_parts(st, e[1], depth + 1) for e in v[2])
        if v[0] == "phi":
            return any(self.opaque_parts(st, x, depth + 1) for x in v[1])
        return False

    def should_cut(self, f, args, st):
        """recursive calls on nodes of unknown kind are not followed"""
        if not f["local"] or f["closure"] or not self.p.recursive(f["id"]):
            return False
        on_stack = any(x["id"] == f["id"] for x in self.stack)
        if not on_stack and f["id"] not in self.anchors and not self.expecting:
            return False
        if any(self.opaque_node(st, a) for a in args) or self.sc.forcecut(self, st, f, args):
            return True
        if (on_stack or self.expecting) and any(self.opaque_parts(st, a) for a in args):
            return not self.sc.nocut(self, st, f, args)
        return False

    def cut(self, f, args, st, site):
        """opaque result of a recursive call (induction hypothesis)"""
        raw = [self.eta(self.deepderef(st, a)) for a in args]
        vals = self.sc.canon(self, st, f, raw)
        name = f["id"]
        if not self.expecting:
            self.cut_log.append((name, tuple(raw), len(self.root_log), [x["id"] for x in self.stack]))
        r = self.sc.call(self, st, f, args, site)
        if r is not None:
            return r
        body = f["body"]
        for i, a in enumerate(args):
            ty = self.p.types[body["locals"][i + 1]["ty"]]
            if ty["k"] == "ref" and ty.get("mut"):
                t = self.app(name + ":%d" % i, vals, ty["args"][0])
                self.store(st, a, t)
        rt = body["locals"][0]["ty"]
        if self.p.types[rt]["s"] == "()":
            return UNIT
        return self.app(name, vals, rt)

    def run(self, f, args, st):
        """analyses f on args; returns the value and updates st; raises Diverge if it never returns"""
        if len(self.stack) > 70:
            raise Limit("call depth")
        body = f["body"]
        args = self.spread(f, args, st)
        self.frame += 1
        fr = self.frame
        if f["local"] and not f["closure"] and self.p.recursive(f["id"]):
            now = tuple(self.deepderef(st, a) for a in args)
            if any(g == f["id"] and a == now for g, a in self.active) and not unclear(now):
                # the same function on the same arguments is still running
                self.event("endless recursion", f["id"])
                raise Diverge()
            self.active.append((f["id"], now))
        else:
            self.active.append((None, ()))
        self.stack.append(f)
        self.fns_seen.add(f["id"])
        try:
            return self._run(f, body, args, st, fr)
        finally:
            self.stack.pop()
            self.active.pop()

    def spread(self, f, args, st):
        body = f["body"]
        if f["closure"] and len(args) != body["argc"]:
            if len(args) == 2 and args[1][0] == "tup":
                args = [args[0]] + list(args[1][1])
        if len(args) != body["argc"]:
            raise Limit("arity of " + f["id"])
        return args

    def _run(self, f, body, args, st, fr, prom=False):
        blocks = body["blocks"]
        rpo = self.p.rpo(body)
        live, borrowed = self.p.live(body)
        loops = self.p.while_loops(body)
        s0 = st.copy()
        for i, a in enumerate(args):
            s0.cells[(fr, i + 1)] = a
        pend = [(0, 0, (0, ()))]
        states = {(0, ()): s0}
        queued = {(0, ())}
        visits = {}
        rets = None
        n = 0
        back = {}
        while pend:
            _, _, key = heapq.heappop(pend)
            queued.discard(key)
            visits[key] = visits.get(key, 0) + 1
            if visits[key] > 60:
                raise Limit("no fixpoint in " + f["id"])
            self.steps += 1
            if self.steps > self.max_steps:
                raise Limit("step budget")
            b = key[0]
            cur = states[key].copy()
            nxt = self.block(f, body, b, cur, fr)
            if not nxt:
                back.setdefault("end", set()).add(key)
            for (tb, s) in nxt:
                if tb == "ret":
                    back.setdefault("end", set()).add(key)
                    v = s.cells.get((fr, 0), UNIT)
                    if v is UNINIT:
                        v = UNIT
                    rets = (v, s) if rets is None else (join(rets[0], v), join_state(rets[1], s))
                    continue
                lv = live[tb]
                for c in [c for c in s.cells if c[0] == fr and c[1] not in lv and c[1] not in borrowed]:
                    del s.cells[c]
                pk = tuple(sorted((c[1], v[2], v[3]) for c, v in s.cells.items() if c[0] == fr and v[0] == "iter" and c[1] in lv))
                # the entries of a document are read one after the other
                pk += tuple(("left", len(v[3][0][1]), v[3][1] == NONE) for c, v in s.cells.items() if c[0] == fr and v[0] == "adt" and v[1] == "@access")
                if loops:
                    # the first rounds of a loop are kept apart
                    turn = dict(key[1][-1][1]) if key[1] and key[1][-1][0] == "turn" else {}
                    turn = tuple((h, min(UNROLL, turn[h] + 1) if h == tb and h in turn and rpo[tb] <= rpo[b] else turn.get(h, 0))
                                 for h, mem in sorted(loops.items()) if tb in mem)
                    if turn:
                        pk += (("turn", turn),)
                k2 = (tb, pk)
                back.setdefault(k2, set()).add(key)
                if k2 in states:
                    old = states[k2]
                    new = join_state(old, s)
                    if visits.get(k2, 0) > 8:
                        new = widen_state(old, new)
                    if new.same(old):
                        if k2 not in visits and k2 not in queued:
                            pass
                        else:
                            continue
                    states[k2] = new
                else:
                    states[k2] = s
                if k2 not in queued:
                    n += 1
                    queued.add(k2)
                    heapq.heappush(pend, (rpo[tb], n, k2))
        ends, todo = set(), list(back.get("end", ()))
        while todo:
            x = todo.pop()
            if x not in ends:
                ends.add(x)
                todo += back.get(x, ())
        if len(ends) < len(visits):
            # from some state that was reached, no way leads out of the function
            self.event("endless loop", f["id"])
        if rets is None:
            raise Diverge()
        v, s = rets
        for c in [c for c in s.cells if c[0] == fr]:
            del s.cells[c]
        st.assign(s)
        return v

    # ------------------------------------------------------------------ blocks
    def loc(self, st, fr, place):
        """(kind, ...) of a place: ("loc", cell, path) or ("val", v)"""
        cell, path = (fr, place[0]), ()
        var = None
        mode = "loc"
        val = None
        for e in place[1]:
            if e == "*":
                v = self.read(st, cell, path) if mode == "loc" else val
                if v[0] == "ref":
                    mode, cell, path = "loc", v[1], v[2]
                elif v[0] == "phi" and any(a[0] == "ref" for a in v[1]):
                    mode, val = "val", self.deref(st, v)
                    refs = v
                    return ("phi", refs, place[1][place[1].index(e) + 1:])
                var = None
            elif e[0] == "v":
                var = e[1]
            else:
                if e[0] == "f":
                    step = ("f", var, e[1], e[2])
                    var = None
                    if mode == "loc":
                        base = self.read(st, cell, path)
                        if base[0] == "ref":
                            cell, path = base[1], base[2]
                        path = path + (step[:3],)
                        if base[0] in TERM:
                            self.mkproj(base, step[:3], step[3])
                    else:
                        val = self.get(val, step)
                else:
                    base = self.read(st, cell, path) if mode == "loc" else val
                    mode, val = "val", models.index_place(self, st, fr, base, e)
                    cellpath = models.index_loc(self, st, fr, base, e)
                    if cellpath is not None and path is not None:
                        mode, path = "loc", path + (cellpath,)
        return (mode, cell, path) if mode == "loc" else ("val", val)

    def rplace(self, st, fr, place):
        l = self.loc(st, fr, place)
        if l[0] == "loc":
            return self.read(st, l[1], l[2])
        if l[0] == "phi":
            v = self.deref(st, l[1])
            var = None
            for e in l[2]:
                if e == "*":
                    v = self.deref(st, v)
                elif e[0] == "v":
                    var = e[1]
                elif e[0] == "f":
                    v = self.get(v, ("f", var, e[1], e[2]))
                    var = None
                    if v is None:
                        return top("unreachable")
                else:
                    return top("index through alternatives")
            return v
        return l[1] if l[1] is not None else top("unreachable")

    def wplace(self, st, fr, place, v):
        l = self.loc(st, fr, place)
        if l[0] == "loc":
            self.write(st, l[1], l[2], v)
        elif l[0] == "phi":
            path, var = (), None
            for e in l[2]:
                if e[0] == "v":
                    var = e[1]
                elif e[0] == "f":
                    path += (("f", var, e[1]),)
                    var = None
            for a in l[1][1]:
                if a[0] == "ref":
                    old = self.read(st, a[1], a[2] + path)
                    self.write(st, a[1], a[2] + path, join(old, v))

    def operand(self, st, fr, o, f):
        if o[0] in ("copy", "move"):
            return self.rplace(st, fr, o[1])
        return self.const(o[1], f)

    def const(self, c, f):
        k = c.get("k")
        if k in ("bool", "int", "char"):
            return ("c", k, c.get("v"))
        if k == "str":
            return lit(c["v"])
        if k == "fn":
            return ("fn", FrozenCallee(self.p.types[c["ty"]].get("callee") or {}))
        if k == "bytes":
            return ("bytes", tuple(c["v"]))
        if k == "promoted":
            owner = c.get("owner")
            g = self.p.fns.get(owner) if owner else None
            if g is None:
                g = f
            key = (g["id"], c["idx"])
            if key not in self.prom:
                self.frame += 1
                self.stack.append(g)
                try:
                    s = State()
                    fr = self.frame
                    body = g["promoted"][c["idx"]]
                    v = self._run(g, body, [], s, fr, prom=True)
                    self.prom[key] = v
                finally:
                    self.stack.pop()
            return self.prom[key]
        if k == "zst":
            t = self.p.types[c["ty"]]
            pt = self.p.types[self.p.peel(c["ty"])]
            if pt["k"] == "tuple":
                return UNIT
            if pt["k"] == "closure":
                return ("clo", pt.get("inst"), ())
            if pt["k"] == "fndef":
                return ("fn", FrozenCallee(pt.get("callee") or {}))
            if pt["k"] == "adt":
                return ("adt", pt["path"], 0, ())
            if pt["k"] in ("array", "slice"):
                return EMPTY
            return ("app", "zst", (t["s"],))
        if k == "static" and not c.get("mutable"):
            # what its initializer computes; a static that can change is the business of the effects rule
            key = ("static", c["static"])
            if key not in self.prom:
                g = next((self.p.fns[n] for n in self.p.by_path.get(c["static"], ())), None)
                if g is not None:
                    s = State()
                    self.prom[key] = self.deepderef(s, self.run(g, [], s))
            if key in self.prom:
                return self.prom[key]
        if k == "lifted":
            return self.sym(c["name"], self.p.types[c["ty"]]["s"])
        if k == "ref":
            return self.const(c["to"], f)
        if k == "arr":
            return ("seq", tuple(("1", self.const(x, f)) for x in c["items"]))
        if k == "agg":
            pt = self.p.types[self.p.peel(c["ty"])]
            fs = tuple(self.const(x, f) for x in c["fields"])
            if pt["k"] == "adt":
                return ("adt", pt["path"], c.get("variant") or 0, fs)
            return ("tup", fs)
        t = self.p.types[c["ty"]]
        return self.app("const", (c.get("name") or k or "?", t["s"]), c["ty"])

    def block(self, f, body, b, st, fr):
        bl = body["blocks"][b]
        for s in bl["s"]:
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2], f, body)
                self.wplace(st, fr, s[1], v)
            elif s[0] == "setd":
                old = self.rplace(st, fr, s[1])
        t = bl["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k == "switch":
            return self.switch(st, fr, t, f, body)
        if k == "assert":
            c = self.operand(st, fr, t[1], f)
            r = self.truth(st, c)
            if r is not None and r != t[2]:
                models.abort_event(self, "all", t[3])
                return []
            if r is None:
                models.abort_event(self, "maybe", t[3])
            return [(t[4], st)]
        if k == "call":
            return self.term_call(st, fr, t, f, bl, b)
        return []

    def term_call(self, st, fr, t, f, bl, b):
        args = [self.operand(st, fr, a, f) for a in t[2]]
        site = (f["id"], b)
        callee = self.p.callee(t[1])
        dl = self.place_ty(f, t[3])
        try:
            if callee is None:
                fv = self.operand(st, fr, t[1], f)
                v = self.call_value(st, fv, args, site, dl)
                outs = [(v, st)]
            else:
                outs = self.call(callee, args, st, site, dl)
        except Diverge:
            return []
        if t[4] is None:
            return []
        r = []
        for v, s in outs:
            self.wplace(s, fr, t[3], v)
            r.append((t[4], s))
        return r

    def place_ty(self, f, place):
        ty = f["body"]["locals"][place[0]]["ty"] if place[0] < len(f["body"]["locals"]) else None
        for e in place[1]:
            if e != "*" and e[0] == "f":
                ty = e[2]
        return ty

    def switch(self, st, fr, t, f, body):
        op, targets, other = t[1], t[2], t[3]
        v = self.operand(st, fr, op, f)
        v = self.deref(st, v)
        cell = (fr, op[1][0]) if op[0] in ("copy", "move") and not op[1][1] else None
        if v[0] == "c":
            n = v[2]
            if v[1] == "bool":
                n = 1 if n else 0
            elif v[1] == "char":
                n = ord(n) if n else None
            for tv, tb in targets:
                if tv == n:
                    return [(tb, st)]
            return [(other, st)]
        if v[0] == "discr":
            return self.switch_discr(st, v, targets, other, body)
        is_bool = self.p.types[t[4]]["k"] == "bool"
        if is_bool:
            r = self.truth(st, v)
            edges = {0: None, 1: None}
            for tv, tb in targets:
                edges[tv] = tb
            for k in (0, 1):
                if edges[k] is None:
                    edges[k] = other
            if r is not None:
                return [(edges[1 if r else 0], st)]
            out = []
            for k in (0, 1):
                s2 = st.copy()
                self.assume(s2, v, bool(k))
                if cell is not None:
                    s2.cells[cell] = cbool(k)
                out.append((edges[k], s2))
            return out
        if v[0] == "phi" and all(a[0] == "c" for a in v[1]):
            out = []
            done = set()
            for a in v[1]:
                for (tb, _) in self.switch_const(a, targets, other):
                    if tb not in done:
                        done.add(tb)
                        out.append((tb, st.copy()))
            return out
        if v[0] == "char" or (is_term(v) and self.p.types[t[4]]["k"] == "char"):
            from . import absstr
            out = []
            rest_possible = True
            for tv, tb in targets:
                r = absstr.char_is(self, st, v, chr(tv)) if tv < 128 or self.p.types[t[4]]["k"] == "char" else None
                if r is True:
                    return out + [(tb, st)]
                if r is None:
                    out.append((tb, st.copy()))
            return out + [(other, st)]
        # undecided integer
        out = []
        for tv, tb in targets:
            r = models.int_cmp(self, st, "eq", v, cint(tv))
            if r is True:
                return [(tb, st)]
            if r is None:
                out.append((tb, st.copy()))
        return out + [(other, st.copy())]

    def switch_const(self, a, targets, other):
        n = a[2]
        if a[1] == "bool":
            n = 1 if n else 0
        elif a[1] == "char":
            n = ord(n)
        for tv, tb in targets:
            if tv == n:
                return [(tb, None)]
        return [(other, None)]

    def assume(self, st, v, val):
        if v[0] == "app" and v[1] == "not":
            return self.assume(st, v[2][0], not val)
        if v[0] == "app" and v[1] == "and" and val:
            for x in v[2]:
                self.assume(st, x, True)
        elif v[0] == "app" and v[1] == "or" and not val:
            for x in v[2]:
                self.assume(st, x, False)
        if is_term(v):
            st.facts[v] = val

    def switch_discr(self, st, v, targets, other, body):
        _, val, loc, tpath = v
        info = None
        alts = phi_alts(val)
        # possible variants
        groups = {}
        unknown = []
        for a in alts:
            if a[0] == "adt":
                groups.setdefault(self.vdiscr(a[1], a[2]), []).append(a)
            elif is_term(a):
                r = self.decide(st, a)
                bt = self.ptype(a)
                if r is not None:
                    d = bt["variants"][r]["discr"] if bt is not None and bt["k"] == "adt" else r
                    groups.setdefault(d, []).append(a)
                elif bt is not None and bt["k"] == "adt":
                    for i, x in enumerate(bt["variants"]):
                        groups.setdefault(x["discr"], []).append(a)
                else:
                    unknown.append(a)
            else:
                unknown.append(a)
        out = []
        named = {tv for tv, _ in targets}

        def edge(tb, keep, dset):
            s2 = st.copy()
            if len(alts) == 1 and is_term(alts[0]) and dset is not None and len(dset) == 1:
                bt = self.ptype(alts[0])
                d = next(iter(dset))
                var = self.variant_of_discr(bt, d) if bt is not None and bt["k"] == "adt" else d
                s2.facts[alts[0]] = var
            if loc is not None and len(alts) > 1 and keep:
                cur = self.read(s2, loc[0], loc[1])
                if cur == val:
                    self.write(s2, loc[0], loc[1], mkphi(keep))
            out.append((tb, s2))
        for tv, tb in targets:
            g = groups.get(tv, [])
            if g or unknown:
                edge(tb, g + unknown, {tv})
        rest = [d for d in groups if d not in named]
        if rest or unknown:
            keep = []
            for d in rest:
                keep += groups[d]
            if body["blocks"][other]["t"][0] != "unreachable":
                edge(other, keep + unknown, set(rest) if not unknown else None)
        return out

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, f, body):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1], f)
        if k == "ref":
            l = self.loc(st, fr, r[2])
            if r[1] == "mut":
                if l[0] == "loc":
                    v = self.read(st, l[1], l[2])
                    if v[0] == "ref":
                        return ("ref", l[1], l[2])
                    return ("ref", l[1], l[2])
                if l[0] == "phi":
                    path, var = (), None
                    for e in l[2]:
                        if e[0] == "v":
                            var = e[1]
                        elif e[0] == "f":
                            path += (("f", var, e[1]),)
                            var = None
                    return mkphi([("ref", a[1], a[2] + path) for a in l[1][1] if a[0] == "ref"])
                return l[1] if l[1] is not None else top("ref")
            v = self.rplace(st, fr, r[2])
            return v
        if k == "cast":
            v = self.operand(st, fr, r[2], f)
            if v[0] == "discr":
                return v
            return models.cast(self, st, r[1], v, r[3])
        if k == "bin":
            a = self.operand(st, fr, r[2], f)
            b = self.operand(st, fr, r[3], f)
            return models.binop(self, st, r[1], a, b)
        if k == "un":
            a = self.deref(st, self.operand(st, fr, r[2], f))
            return models.unop(self, st, r[1], a)
        if k == "discr":
            l = self.loc(st, fr, r[1])
            v = self.rplace(st, fr, r[1])
            if v[0] == "ref":
                v = self.deref(st, v)
                l = ("val", v)
            if v[0] == "iterst":
                v = resolve1(v)
            if v[0] == "adt":
                return ("c", "int", self.vdiscr(v[1], v[2]))
            if is_term(v):
                d = self.decide(st, v)
                if d is not None:
                    bt = self.ptype(v)
                    return ("c", "int", bt["variants"][d]["discr"] if bt is not None and bt["k"] == "adt" else d)
            return ("discr", v, (l[1], l[2]) if l[0] == "loc" else None, None)
        if k == "agg":
            ops = tuple(self.operand(st, fr, o, f) for o in r[4])
            if r[1] == "tuple":
                return ("tup", ops)
            if r[1] == "array":
                return ("seq", tuple(("1", o) for o in ops))
            if r[1] == "adt":
                if r[2].endswith(("RangeTo", "RangeToInclusive")):
                    return ("range", cint(0)) + ops + (cbool("Inclusive" in r[2]),)
                if r[2] in models.RANGES:
                    return ("range",) + ops + ((cbool("Inclusive" in r[2]),) if len(ops) == 2 else ())
                return ("adt", r[2], r[3], ops)
            if r[1] == "closure":
                return ("clo", r[2], ops)
        if k == "repeat":
            v = self.operand(st, fr, r[1], f)
            if isinstance(r[2], int) and r[2] <= 16:
                return ("seq", tuple(("1", v) for _ in range(r[2])))
            return ("seq", (("*", ("sym", "repeat"), v, True),))
        return top("rvalue " + str(r[0]))

    # ------------------------------------------------------------------ calls
    def call(self, callee, args, st, site, dty):
        """list of (value, state)"""
        if isinstance(callee, FrozenCallee):
            callee = callee.d
        if callee.get("ctor"):
            out = self.p.types[callee["out"]]
            return [(("adt", out["path"], callee.get("variant", 0), tuple(args)), st)]
        name = callee["name"]
        rname = callee.get("rname") or name
        inst = callee.get("inst")
        f = self.p.fns.get(inst) if inst else None
        if f is not None and f["closure"] and name.startswith("core::ops::function::") and len(args) == 2 and args[1][0] == "tup":
            args = [args[0]] + list(args[1][1])
        if f is not None and f["local"] and not (f["derived"] and models.derived_ok(name)):
            h = getattr(self.sc, "known", None)
            r = h(self, st, f, args) if h else None
            if r is not None:
                return [(r, st)]
            if self.should_cut(f, args, st):
                return [(self.cut(f, args, st, site), st)]
            r = self.sc_intercept(f, args, st, site)
            if r is not None:
                return [(r, st)]
            if f["path"] == casing.FN and args and not isinstance(self.world, casing.Strings) and casing.legal(self.deref(st, args[0])) and casing.proven(self.p):
                return [(models.snake(self, st, callee, args, site, dty), st)]
            return [(self.run_alts(f, args, st), st)]
        if self.world is not None:
            r = self.world.call(self, st, callee, args, site, dty)
            if r is not NotImplemented:
                return [(r, st)]
        m = models.lookup(name, rname, callee)
        if m is not None:
            self.calls += 1
            r = m(self, st, callee, args, site, dty)
            if r is not NotImplemented:
                return r if isinstance(r, list) else [(r, st)]
        if f is not None and not f["generic"]:
            return [(self.run(f, args, st), st)]
        g = self.linked(name, rname)
        if g is not None:
            return [(self.run_linked(g, args, st), st)]
        return [(self.unknown(callee, args, st, site, dty), st)]

    def run_alts(self, f, args, st):
        """f for every combination of the few constants that its arguments may be"""
        for i, a in enumerate(args):
            v = self.deepderef(st, a) if a[0] == "ref" else a
            alts = v[1] if v[0] == "phi" else ()
            if not 2 <= len(alts) <= 8 or not all(constant(x) for x in alts):
                continue
            r = out = None
            for x in sorted(alts, key=repr):
                s2 = st.copy()
                if a[0] == "ref":
                    t = a
                    while True:
                        w = self.read(s2, t[1], t[2])
                        if w[0] != "ref":
                            break
                        t = w
                    self.write(s2, t[1], t[2], x)
                    arg = a
                else:
                    arg = x
                try:
                    y = self.run_alts(f, args[:i] + [arg] + args[i + 1:], s2)
                except Diverge:
                    continue
                r = join(r, y)
                out = s2 if out is None else join_state(out, s2)
            if out is None:
                raise Diverge()
            st.assign(out)
            return r
        return self.run(f, args, st)

    link = None         # the program of the crate this one is linked with

    def linked(self, *names):
        if self.link is None:
            return None
        for n in names:
            g = self.link.fns.get(n)
            if g is not None and g["local"] and not g["generic"]:
                return g
        return None

    def run_linked(self, g, args, st):
        old, self.p = self.p, self.link
        try:
            return self.run(g, args, st)
        finally:
            self.p = old

    def sc_intercept(self, f, args, st, site):
        h = getattr(self.sc, "intercept", None)
        return h(self, st, f, args, site) if h else None

    def unknown(self, callee, args, st, site, dty):
        """a function without body and model: an uninterpreted function of its arguments"""
        name = callee.get("rname") or callee["name"]
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        vals = [self.deepderef(st, a) for a in args]
        for i, a in enumerate(args):
            if a[0] == "ref":
                old = self.deref(st, a)
                self.store(st, a, top("changed by " + name))
        if any(v[0] == "top" for v in vals):
            return top(name)
        return self.app(name, vals, dty)


def constant(v):
    """a constant without parts"""
    return v[0] == "c" or v[0] == "adt" and not v[3]


def unclear(v, depth=0):
    """may v stand for several values at once?"""
    if not isinstance(v, tuple) or depth > 80:
        return False
    if v and v[0] in ("top", "phi", "*", "+", "iterst"):
        return True
    return any(unclear(x, depth + 1) for x in v if isinstance(x, tuple))


def bag_order(segs):
    os = [s[2] for s in segs if s[0] == "bag"]
    return os[0] if len(segs) == 1 and len(os) == 1 else "hash" if "hash" in os else ("sorted", (top("order"),))


class FrozenCallee:
    """hashable callee descriptor"""
    __slots__ = ("d", "k")

    def __init__(self, d):
        self.d = d
        self.k = (d.get("name"), d.get("inst"), d.get("rname"), tuple(d.get("targs") or ()))

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, FrozenCallee) and self.k == o.k

    def __repr__(self):
        return "fn:" + str(self.k[1] or self.k[2] or self.k[0])

    def __getitem__(self, i):
        return self.k[i]


def resolve_shallow(v):
    return ("seq", tuple(map_seg(s, resolve1) if s[0] != "bag" else s for s in v[1]))


def widen_state(old, new):
    """gives up on values that keep changing"""
    cells = {}
    for k, v in new.cells.items():
        o = old.cells.get(k)
        cells[k] = v if o is None or o == v else top("widened")
    return State(cells, new.facts)
