"""Access to the library under test through its public interface only."""
import pylogics_modalities  # noqa: F401
from pylogics_modalities.parsers import parse_ldl, parse_ltl, parse_pl, parse_pltl
from pylogics_modalities.semantics.pl import evaluate_pl
from pylogics_modalities.syntax import fol, ldl, ltl, pl, pltl
from pylogics_modalities.syntax.base import (
    And,
    Equivalence,
    FalseFormula,
    Formula,
    Implies,
    Logic,
    Not,
    Or,
    TrueFormula,
    get_cache_context,
    reset_cache,
)
from pylogics_modalities.utils.to_string import to_string

LOGIC = {"pl": Logic.PL, "ltl": Logic.LTL, "pltl": Logic.PLTL, "ldl": Logic.LDL, "re": Logic.RE}
LNAME = {v: k for k, v in LOGIC.items()}
PARSE = {"pl": parse_pl, "ltl": parse_ltl, "pltl": parse_pltl, "ldl": parse_ldl}
ATOM = {"pl": pl.Atomic, "ltl": ltl.Atomic, "pltl": pltl.Atomic}

NARY = {And: "and", Or: "or", Implies: "implies", Equivalence: "equiv", ltl.Until: "U", ltl.Release: "R", ltl.WeakUntil: "W",
        ltl.StrongRelease: "M", pltl.Since: "S", pltl.Triggers: "T_", ldl.Seq: "seq", ldl.Union: "union"}
UN = {Not: "not", ltl.Next: "X!", ltl.WeakNext: "X", ltl.Eventually: "F_", ltl.Always: "G", pltl.Before: "Y", pltl.WeakBefore: "Z",
      pltl.Once: "O", pltl.Historically: "H", ldl.Star: "star", ldl.Test: "test", ldl.Prop: "prop"}
CLS = {"and": And, "or": Or, "implies": Implies, "equiv": Equivalence, "not": Not, "U": ltl.Until, "R": ltl.Release, "W": ltl.WeakUntil,
       "M": ltl.StrongRelease, "X!": ltl.Next, "X": ltl.WeakNext, "F": ltl.Eventually, "G": ltl.Always, "S": pltl.Since, "T": pltl.Triggers,
       "Y": pltl.Before, "Z": pltl.WeakBefore, "O": pltl.Once, "H": pltl.Historically, "seq": ldl.Seq, "union": ldl.Union,
       "star": ldl.Star, "test": ldl.Test, "prop": ldl.Prop, "dia": ldl.Diamond, "box": ldl.Box}
ATOMS = {pl.Atomic: "pl", ltl.Atomic: "ltl", pltl.Atomic: "pltl"}
PBOOL = {ltl.PropositionalTrue: ("PT", "ltl"), ltl.PropositionalFalse: ("PF", "ltl"), pltl.PropositionalTrue: ("PT", "pltl"),
         pltl.PropositionalFalse: ("PF", "pltl")}


class NotAFormula(Exception):
    pass


def to_node(f):
    """Read a formula back through its public accessors."""
    c = type(f)
    k = UN.get(c)
    if k is not None:
        return (k, to_node(f.argument))
    k = NARY.get(c)
    if k is not None:
        return (k, tuple(to_node(x) for x in f.operands))
    k = ATOMS.get(c)
    if k is not None:
        return ("atom", k, f.name)
    if c is TrueFormula:
        return ("T", LNAME.get(f.logic, str(f.logic)))
    if c is FalseFormula:
        return ("F", LNAME.get(f.logic, str(f.logic)))
    k = PBOOL.get(c)
    if k is not None:
        return k
    if c is ldl.Diamond:
        return ("dia", to_node(f.regular_expression), to_node(f.tail_formula))
    if c is ldl.Box:
        return ("box", to_node(f.regular_expression), to_node(f.tail_formula))
    raise NotAFormula(f"{c.__module__}.{c.__qualname__}")


def leaf(t, lg):
    k = t[0]
    if k == "atom":
        return ATOM[lg](t[1])
    if k == "true":
        return TrueFormula(logic=LOGIC[lg])
    if k == "false":
        return FalseFormula(logic=LOGIC[lg])
    if k == "ptrue":
        return ltl.PropositionalTrue() if lg == "ltl" else pltl.PropositionalTrue()
    if k == "pfalse":
        return ltl.PropositionalFalse() if lg == "ltl" else pltl.PropositionalFalse()
    if k == "last":
        return ltl.Last() if lg == "ltl" else ldl.Last()
    if k == "end":
        return ldl.End()
    if k == "start":
        return pltl.Start()
    return None


def build(t, lg, ops=False):
    """Build a term through constructors (or operators, where there are any)."""
    r = leaf(t, lg)
    if r is not None:
        return r
    k = t[0]
    if k in ("dia", "box"):
        return CLS[k](build(t[1], "re", ops), build(t[2], "ldl", ops))
    if k == "prop":
        return ldl.Prop(build(t[1], "pl", ops))
    if k == "test":
        return ldl.Test(build(t[1], "ldl", ops))
    args = [build(x, lg, ops) for x in t[1:]]
    if k == "rshift":
        return args[0] >> args[1]
    if ops:
        if k == "not":
            return ~args[0]
        if k == "and" and len(args) == 2:
            return args[0] & args[1]
        if k == "or" and len(args) == 2:
            return args[0] | args[1]
    return CLS[k](*args)
