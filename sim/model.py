"""Reference model: terms (what the user writes), nodes (what the formula must be), evaluation, equality.

Written from the documentation and grammars, independent of the library.
term : JSON list, e.g. ["and", ["atom","a"], ["not", ["true"]]]
node : nested tuple, e.g. ("and", (("atom","pl","a"), ...)) with ordered operands
"""

BOOL_OPS = ("and", "or", "implies", "equiv")
NARY = {
    "pl": (),
    "ltl": ("U", "R", "W", "M"),
    "pltl": ("S", "T"),
    "ldl": (),
    "re": ("seq", "union"),
}
UNARY = {"pl": (), "ltl": ("X!", "X", "F", "G"), "pltl": ("Y", "Z", "O", "H"), "ldl": (), "re": ("star", "test", "prop")}
COMM = ("and", "or", "equiv", "union")


def T(lg):
    return ("T", lg)


def F(lg):
    return ("F", lg)


_canon_cache = {}


def canon(n):
    """Order- and repetition-insensitive form; two nodes are equal formulas iff canon is equal."""
    r = _canon_cache.get(n)
    if r is not None:
        return r
    k = n[0]
    if k in ("T", "F", "PT", "PF", "atom"):
        r = n
    elif k in COMM:
        r = (k, frozenset(canon(x) for x in n[1]))
    elif k in ("dia", "box"):
        r = (k, canon(n[1]), canon(n[2]))
    elif k in ("not", "X!", "X", "F_", "G", "Y", "Z", "O", "H", "star", "test", "prop"):
        r = (k, canon(n[1]))
    else:
        r = (k, tuple(canon(x) for x in n[1]))
    _canon_cache[n] = r
    return r


def eq(a, b):
    return canon(a) == canon(b)


def logic(n):
    k = n[0]
    if k in ("T", "F", "PT", "PF", "atom"):
        return n[1]
    if k in ("X!", "X", "F_", "G", "U", "R", "W", "M"):
        return "ltl"
    if k in ("Y", "Z", "O", "H", "S", "T_"):
        return "pltl"
    if k in ("dia", "box"):
        return "ldl"
    if k in ("star", "test", "prop", "seq", "union"):
        return "re"
    if k == "not":
        return logic(n[1])
    return logic(n[1][0])


def mk_not(n):
    k = n[0]
    if k == "not":
        return n[1]
    if k == "T":
        return ("F", n[1])
    if k == "F":
        return ("T", n[1])
    if k == "PT":
        return ("PF", n[1])
    if k == "PF":
        return ("PT", n[1])
    return ("not", n)


def _dedupe(ops):
    seen = set()
    out = []
    for o in ops:
        c = canon(o)
        if c not in seen:
            seen.add(c)
            out.append(o)
    return out


def mk_mono(op, ops):
    """Conjunction / disjunction with the documented simplifications; operand order kept."""
    lg = logic(ops[0])
    absorbing, identity = (F(lg), T(lg)) if op == "and" else (T(lg), F(lg))
    ops = [o for o in _dedupe(ops) if o != identity]
    if not ops:
        return identity
    if len(ops) == 1:
        return ops[0]
    if absorbing in ops:
        return absorbing
    flat = []
    seen = set()

    def visit(o):
        if o[0] == op:
            for x in o[1]:
                if visit(x):
                    return True
            return False
        if canon(mk_not(o)) in seen:
            return True
        if canon(o) not in seen:
            seen.add(canon(o))
            flat.append(o)
        return False

    for o in ops:
        if visit(o):
            return absorbing
    if len(flat) == 1:
        return flat[0]
    return (op, tuple(flat))


def mk_implies(ops):
    if len(ops) == 1:
        return ops[0]
    lg = logic(ops[0])
    for i, o in enumerate(ops[:-1]):
        if o == F(lg):  # ex falso: the rest holds
            pre = tuple(ops[:i]) + (T(lg),)
            return pre[0] if len(pre) == 1 else ("implies", pre)
    return ("implies", tuple(ops))


def mk_equiv(ops):
    ops = _dedupe(ops)
    return ops[0] if len(ops) == 1 else ("equiv", tuple(ops))


def apply(k, args, lg):
    """The node for operator k applied to nodes args, in logic lg."""
    if k == "not":
        return mk_not(args[0])
    if k in ("and", "or"):
        return mk_mono(k, args)
    if k == "implies":
        return mk_implies(args)
    if k == "equiv":
        return mk_equiv(args)
    if k == "rshift":
        return mk_mono("or", [mk_not(args[0]), args[1]])
    if k in ("dia", "box"):
        return (k, args[0], args[1])
    if k == "F":
        return ("F_", args[0])
    if k == "T":
        return ("T_", tuple(args))
    if k in ("X!", "X", "G", "Y", "Z", "O", "H", "star", "test", "prop"):
        return (k, args[0])
    return (k, tuple(args))


PROP_T, PROP_F = ("prop", ("T", "pl")), ("prop", ("F", "pl"))


def leaf(t, lg):
    k = t[0]
    if k == "atom":
        return ("atom", lg, t[1])
    if k == "true":
        return T(lg)
    if k == "false":
        return F(lg)
    if k == "ptrue":
        return ("PT", lg)
    if k == "pfalse":
        return ("PF", lg)
    if k == "last":
        return ("G", F("ltl")) if lg == "ltl" else ("dia", PROP_T, ("box", PROP_T, F("ldl")))
    if k == "end":
        return ("box", PROP_T, F("ldl"))
    if k == "start":
        return ("not", ("Y", T("pltl")))
    return None


def node(t, lg, sink=None):
    """The formula a term denotes; with `sink`, every intermediate node is appended to it."""
    r = leaf(t, lg)
    if r is None:
        k = t[0]
        if k in ("dia", "box"):
            args = [node(t[1], "re", sink), node(t[2], "ldl", sink)]
        elif k == "prop":
            args = [node(t[1], "pl", sink)]
        elif k == "test":
            args = [node(t[1], "ldl", sink)]
        else:
            args = [node(x, lg, sink) for x in t[1:]]
        if sink is not None and k == "rshift":
            sink.append(mk_not(args[0]))
        r = apply(k, args, lg)
        if sink is not None and any(r in subnodes(a) for a in args):
            return r  # handed back, not built
    if sink is not None:
        sink.append(r)
    return r


def subnodes(n, out=None):
    if out is None:
        out = []
    out.append(n)
    k = n[0]
    if k in ("T", "F", "PT", "PF", "atom"):
        return out
    if k in ("dia", "box"):
        subnodes(n[1], out)
        subnodes(n[2], out)
    elif isinstance(n[1], tuple) and n[1] and isinstance(n[1][0], str):
        subnodes(n[1], out)
    else:
        for x in n[1]:
            subnodes(x, out)
    return out


def evaluate(n, true_syms):
    k = n[0]
    if k == "T":
        return True
    if k == "F":
        return False
    if k == "atom":
        return n[2] in true_syms
    if k == "not":
        return not evaluate(n[1], true_syms)
    vals = [evaluate(x, true_syms) for x in n[1]]
    if k == "and":
        return all(vals)
    if k == "or":
        return any(vals)
    if k == "implies":
        r = vals[-1]
        for v in reversed(vals[:-1]):
            r = (not v) or r
        return r
    if k == "equiv":
        r = vals[0]
        for v in vals[1:]:
            r = r == v
        return r
    raise ValueError(k)


def atoms(n):
    return {s[2] for s in subnodes(n) if s[0] == "atom"}


def size(t):
    """Written size of a term: symbols and operators."""
    if t[0] == "atom":
        return 1
    return 1 + sum(size(x) for x in t[1:] if isinstance(x, list))


# ------------------------------------------------------------------ rendering terms as text

PREC = {
    "pl": ["equiv", "implies", "or", "and"],
    "ltl": ["equiv", "implies", "or", "and", "W", "U", "R", "M"],
    "pltl": ["equiv", "implies", "or", "and", "S", "T"],
    "ldl": ["equiv", "implies", "or", "and"],
}
TOK = {"equiv": ["<->"], "implies": ["->", ">>"], "or": ["|", "||"], "and": ["&", "&&"]}
UNTOK = {"X!": "X[!]"}


def render(t, lg, rng, pretty=0.3):
    """One of the many texts denoting the term."""

    def sp():
        r = rng.random()
        return "" if r < 0.45 else (" " if r < 0.9 else rng.choice(["  ", "\t", "\n", " \n "]))

    def paren(s):
        return "(" + sp() + s + sp() + ")"

    def go(t, lg, level):
        k = t[0]
        if k == "rshift":
            raise ValueError("no text for rshift")
        prec = PREC[lg]
        if k in prec:
            i = prec.index(k)
            parts = [go(x, lg, i + 1) for x in t[1:]]
            if k in TOK:
                s = parts[0]
                for p in parts[1:]:
                    tok = rng.choice(TOK[k])
                    left = sp()
                    # keep a symbol and the operator apart where they could glue ('a-' is not a symbol, so this is style only)
                    s += left + tok + sp() + p
            else:
                s = parts[0]
                for p in parts[1:]:
                    s += " " + k + (" " + sp() if p[0] not in '("' or rng.random() < 0.7 else "") + p
            if i < level or rng.random() < pretty * 0.3:
                s = paren(s)
            return s
        # unary level
        if k == "not":
            s = rng.choice("!~") + sp() + go(t[1], lg, len(prec))
        elif k in UNARY["ltl"] or k in UNARY["pltl"]:
            a = go(t[1], lg, len(prec))
            s = UNTOK.get(k, k) + (" " if a[0] not in '("' or rng.random() < 0.5 else "") + a
        elif k in ("dia", "box"):
            a = regex(t[1], 0)
            b = go(t[2], "ldl", len(prec))
            o, c = "<>" if k == "dia" else "[]"
            s = o + sp() + a + sp() + c + sp() + b
        elif k == "atom":
            s = t[1]
        else:
            s = {"true": "true" if lg == "pl" else "tt", "false": "false" if lg == "pl" else "ff",
                 "ptrue": "true", "pfalse": "false", "last": "last", "end": "end", "start": "start"}[k]
        if rng.random() < pretty * 0.25:
            s = paren(s)
        return s

    def regex(t, level):
        # levels: 0 union, 1 sequence, 2 star, 3 test / wrapped
        k = t[0]
        if k == "union" or k == "seq":
            i = 0 if k == "union" else 1
            tok = "+" if k == "union" else ";"
            s = (sp() + tok + sp()).join(regex(x, i + 1) for x in t[1:])
            if i < level or rng.random() < pretty * 0.2:
                s = paren(s)
            return s
        if k == "star":
            s = regex(t[1], 3) + sp() + "*"
            return paren(s) if level > 2 or rng.random() < pretty * 0.2 else s
        if k == "test":
            f = t[1]
            s = go(f, "ldl", 9)
            if f[0] not in ("true", "false", "last", "end") and not s.startswith("("):
                s = paren(s)
            elif rng.random() < 0.5:
                s = paren(s)
            s = s + sp() + "?"
            return paren(s) if level > 3 or rng.random() < pretty * 0.2 else s
        if k == "prop":
            s = go(t[1], "pl", 9)
            if t[1][0] not in ("atom", "true", "false") or rng.random() < pretty * 0.3:
                s = paren(s)
            return s
        raise ValueError(k)

    r = go(t, lg, 0)
    if rng.random() < 0.15:
        r = sp() + r + sp()
    return r
