"""Snake-casing under both builds (C29): the string pipeline of to_snake_case, as a term, against the word boundaries of heck."""
from . import Result
from .. import casing as K
from ..values import Diverge
from ..engine import Limit

def casing(lib, binp, tier, feature=None):
    r = Result()
    out = {}
    decided = 0
    for name, p in (("default", lib), ("oniguruma", feature)):
        if p is None:
            out[name] = "not analysed"
            continue
        try:
            ps, fns = K.paths(p)
            r.functions |= set(fns)
            out[name] = []
            for lits, t in ps:
                cond = K.condition(lits)
                bad, say = K.judge(t, cond)
                decided += 1
                out[name].append("%s%s" % ("when %s: " % ", ".join(str(x) for x in cond) if cond else "", say))
                if bad:
                    r.violations.append(("casing|%s|%s" % (name, bad[1].split(" at ")[0]), "%s, %s build: for a name such as %r %s, where heck does otherwise" % (K.FN, name, bad[0], bad[1])))
        except (K.Unknown, Diverge, RecursionError, AttributeError, IndexError, KeyError, TypeError, ValueError, Limit) as e:
            out[name] = "undecided: %s %s" % (type(e).__name__, str(e)[:300])
    r.coverage = {"builds": out, "paths_decided": decided,
                  "rule": "the term of to_snake_case is a split of the (mapped, reversed) name at a zero-width regular expression whose words are joined; left and right contexts become automata, and every "
                          "gap of every legal name, of any length, is a word boundary exactly when it is one for heck"}
    return r


casing.feature = "oniguruma"
