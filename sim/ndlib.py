"""Conversion of natural-deduction proofs (see ndforms) to library objects."""
from pylogics_modalities.deduction.fol.nd import NaturalDeduction as ND
from pylogics_modalities.syntax import fol, pl
from pylogics_modalities.syntax.base import Equivalence, FalseFormula, Formula, Implies, Not


# ----------------------------------------------------------------------------- library objects
class Build:
    def __init__(self):
        self.terms = {}
        self.forms = {}

    def term(self, t):
        k = repr(t)
        r = self.terms.get(k)
        if r is None:
            if t[0] == "v":
                r = fol.Variable(t[1])
            elif t[0] == "c":
                r = fol.Constant(t[1])
            else:
                r = fol.Function(t[1], [self.term(x) for x in t[2]])
            self.terms[k] = r
        return r

    def form(self, f):
        k = f[0]
        if k == "P":
            return fol.Predicate(f[1], [self.term(t) for t in f[2]])
        if k == "pa":
            return pl.Atomic(f[1])
        if k == "bot":
            return FalseFormula()
        if k == "not":
            return Not(self.form(f[1]))
        if k == "and":
            return self.form(f[1]) & self.form(f[2])
        if k == "or":
            n = f[1]
            if n[0] == "not" and f[-1] == f[2]:
                return self.form(n[1]) >> self.form(f[2])
            return self.form(f[1]) | self.form(f[2])
        if k in ("imp", "iff"):
            return (Implies if k == "imp" else Equivalence)(self.form(f[1]), self.form(f[2]))
        if k == "all":
            return fol.ForAll(self.term(f[1]), self.form(f[2]))
        return fol.Exists(self.term(f[1]), self.form(f[2]))


def flatten(lines, b, in_box=False):
    out = []
    for i, ln in enumerate(lines):
        if not (in_box and i == 0):
            out.append(ln["row"])
        if "box" in ln:
            inner = flatten(ln["box"], b, True)
            if ln["t"] is not None:
                t = b.term(ln["t"])
                if ln.get("tsep"):  # term alone on the first line
                    inner = [t, [ND.rule.assumption]] + [ln["box"][0]["row"]] + inner
                else:
                    inner = [t] + inner
            out.append(inner)
        else:
            out.append(b.form(ln["f"]))
            out.append([getattr(ND.rule, ln["j"][0])] + list(ln["j"][1:]))
    return out


def snap(x):
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(y) for y in x)
    if isinstance(x, Formula) or isinstance(x, fol.Term):
        return (id(x), str(x))
    return x if isinstance(x, (int, str)) else str(x)
