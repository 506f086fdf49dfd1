"""Seeded generation of run plans, one kind per property."""
import random

from sim import gen, model, refparse, textmut

NSALT = 8


def policy(r, small=False):
    k = r.random()
    seed = r.randrange(1 << 30)
    if k < 0.5:
        return {"kind": "rw", "mean": r.choice([2, 3, 5, 10, 20, 50, 150, 400]), "seed": seed}
    if k < 0.75:
        return {"kind": "pct", "d": r.randint(1, 6), "len": r.choice([100, 400, 1500, 5000]) if small else r.choice([500, 2000, 8000, 30000]), "seed": seed}
    return {"kind": "site", "dens": r.choice([3, 6, 12, 30]), "seed": seed}


def gran(r, p_opcode=0.3):
    return "opcode" if r.random() < p_opcode else "line"


def phase(r, setup, threads, final, small=False, p_opcode=0.3):
    if any(op["o"] == "many" and op["n"] > 40 for part in [setup, final] + threads for op in part):
        seed = r.randrange(1 << 30)
        pol = r.choice([{"kind": "rw", "mean": r.choice([150, 400, 2000]), "seed": seed}, {"kind": "pct", "d": r.randint(1, 6), "len": 60000, "seed": seed}])
        return {"gran": "line", "policy": pol, "setup": setup, "threads": threads, "final": final}
    return {"gran": gran(r, p_opcode), "policy": policy(r, small), "setup": setup, "threads": threads, "final": final}


def make(prop, seed, tier="quick"):
    r = random.Random(f"{prop}:{seed}")
    plan = MAKERS[prop](r, tier)
    plan["prop"] = prop
    plan["seed"] = seed
    return plan


class Names:
    def __init__(self):
        self.k = 0

    def __call__(self, p="v"):
        self.k += 1
        return f"{p}{self.k}"


def parse_op(g, r, lg=None, depth=3, t=None, d=None):
    lg = lg or g.any_logic()
    t = t or g.term(lg, r.randint(0, depth))
    op = {"o": "parse", "lg": lg, "text": model.render(t, lg, r), "term": t}
    if d:
        op["d"] = d
    return op


def text_op(text, lg, d=None):
    """Parse a text about which the reference parser has an opinion."""
    k, t = refparse.parse(text, lg)
    if k == "unknown":
        return None
    op = {"o": "parse", "lg": lg, "text": text, "term": t}
    if d and t:
        op["d"] = d
    return op


def near_op(g, r, lg=None, reject=None, small=False):
    """A damaged text: in the language or not (reject: certainly not)."""
    lg = lg or g.any_logic()
    for _ in range(12):
        op = text_op(textmut.text(g, r, lg, 2 if small else 3), lg)
        if op and (not reject or op["term"] is None):
            return op
    return {"o": "parse", "lg": lg, "text": g.bad_text(lg), "term": None}


def everywhere(g, r):
    """One text, handed to the parsers of all logics."""
    lg = g.any_logic()
    text = textmut.text(g, r, lg) if r.random() < 0.6 else model.render(strip_bool(g.term("pl", r.randint(0, 3))), "pl", r)
    return [op for op in (text_op(text, x) for x in ("pl", "ltl", "pltl", "ldl")) if op]


def bad_op(g, r, lg=None):
    lg = lg or g.any_logic()
    if r.random() < 0.5:
        return near_op(g, r, lg, True)
    return {"o": "parse", "lg": lg, "text": g.bad_text(lg), "term": None}


def build_op(g, r, lg=None, depth=3, t=None, d=None):
    lg = lg or g.any_logic()
    t = t or g.term(lg, r.randint(0, depth), rshift=True)
    op = {"o": "build", "lg": lg, "term": t, "ops": r.random() < 0.4}
    if d:
        op["d"] = d
    return op


def comb_op(g, r, pool, d, k=None):
    """pool: list of (var, lg)."""
    v, lg = r.choice(pool)
    same = [x for x in pool if x[1] == lg]
    ks = ["and", "or", "implies", "equiv", "not", "rshift"] + list(model.NARY[lg]) + list(model.UNARY[lg])
    if lg == "re":
        ks = ["seq", "union", "star"]
    k = k or r.choice(ks)
    if k in model.UNARY[lg] or k == "not" or k in ("star", "test", "prop"):
        return {"o": "comb", "k": k, "a": [v], "d": d, "ops": r.random() < 0.4}, lg
    n = 2 if k == "rshift" else r.choice([2, 2, 3])
    return {"o": "comb", "k": k, "a": [r.choice(same)[0] for _ in range(n)], "d": d, "ops": r.random() < 0.4}, lg


def bad_build(r, v, lg):
    kinds = []
    nary = ["implies", "equiv"] + list(model.NARY[lg])
    c = r.choice(list(model.NARY[lg]) or ["and"])
    x = r.random()
    if x < 0.3:
        nm = r.choice(["Abc", "1x", "", "a b", "a&", "-a", "a\n", '"', "é", "A"])
        return {"o": "badbuild", "k": "name", "lg": lg if lg in ("pl", "ltl", "pltl") else "pl", "name": nm, "a": v}
    if x < 0.5 and model.NARY[lg]:
        return {"o": "badbuild", "k": "one", "c": c, "a": v}
    if x < 0.65:
        return {"o": "badbuild", "k": "zero", "c": r.choice(["and", "or", "implies", "equiv"]), "a": v}
    if x < 0.8:
        return {"o": "badbuild", "k": "dia", "c": r.choice(["dia", "box"]), "a": v}
    if x < 0.9:
        return {"o": "badbuild", "k": "unstr", "c": r.choice(["not", "star", "X", "G", "Y"]), "a": v}
    return {"o": "badbuild", "k": r.choice(["str", "none", "str0"]), "c": r.choice(["and", "or", "implies", "equiv", "U", "S"]), "a": v}


# ----------------------------------------------------------------------------------------------- long histories


def turns(r, big=True):
    return r.choice([70, 140, 140, 280, 280, 550, 550, 1100, 1100, 2200] if big else [40, 70, 140, 280])


def history(r, nm, lg=None, n=None, what=("build",), i=None, keep=None, ck=None):
    """n turns, each over formulas nobody else uses: enough to turn over a bounded store."""
    lg = lg or r.choice(["pl", "pl", "ltl", "pltl", "ldl"])
    p = nm("h")
    x = ["atom", p + "n%"]
    if lg == "ldl":
        x = [r.choice(["dia", "box"]), ["prop", x], ["true"]]
    y = r.random()
    if y < 0.25 and lg != "ldl":
        t = x
    elif y < 0.7:
        t = [r.choice(["and", "or", "implies", "equiv"]), x, ["atom", "a"] if lg != "ldl" else ["true"] if y < 0 else ["dia", ["prop", ["atom", "a"]], ["true"]]]
    else:
        u = [r.choice(list(model.UNARY[lg]) + ["not"]), x]
        t = ["or", u, ["and", x, ["atom", "a"]]] if lg != "ldl" else u
    keep = r.random() < 0.5 if keep is None else keep
    d = p + ("k%" if keep else "k")
    ops = []
    if "parse" in what:
        ops.append({"o": "parse", "lg": lg, "text": model.render(t, lg, r), "term": t, "d": d})
    else:
        ops.append({"o": "build", "lg": lg, "term": t, "ops": r.random() < 0.3, "d": d})
    for w in what:
        if w in ("hash", "print", "str"):
            ops.append({"o": w, "v": d})
        elif w == "eq":
            ops.append({"o": "eq", "a": d, "b": d})
        elif w == "eval" and lg == "pl" and i:
            ops.append({"o": "eval", "v": d, "i": i})
        elif w == "reparse":
            ops += [{"o": "print", "v": d}, {"o": "reparse", "v": d, "lg": lg}]
        elif w == "copy":
            ops.append({"o": "copy", "v": d, "how": r.choice(["copy", "deep", "pickle"]), "proto": r.randint(0, 5), "d": d + "c", "lazy": r.random() < 0.5})
    return {"o": "many", "n": n or turns(r), "ops": ops}


def burst(r, op, f, n=None):
    """The same disturbed call over and over."""
    op = dict(op)
    op["f"] = dict(f)
    if "inj" in f and r.random() < 0.6:  # at another instant each time
        op["f"]["inj"] = [[f["inj"][0], "+", r.choice([1, 1, 2, 3])], f["inj"][1]]
    return {"o": "many", "n": n or turns(r, False), "ops": [op]}


# ----------------------------------------------------------------------------------------------- C01


def c01(r, tier):
    style = r.random()
    g = gen.Gen(r, natoms=r.randint(2, 6), odd=r.choice([0.05, 0.15, 0.5]))
    ths = []
    setup = []
    if style < 0.12:  # bulk: many distinct texts, to turn over any bounded store; then repeats
        texts = []
        for i in range(r.choice([150, 300, 600])):
            lg = r.choice(["pl", "ltl", "pltl"])
            texts.append(parse_op(g, r, lg, t=["and", ["atom", f"k{i}"], g.atom()]))
        pick = [dict(x) for x in r.sample(texts, 20)]
        other = []
        for x in pick:
            lg2 = r.choice(["pl", "ltl", "pltl"])
            other.append({"o": "parse", "lg": lg2, "text": x["text"], "term": x["term"]})
        return {"phases": [{"gran": "line", "policy": {"kind": "rw", "mean": 3000, "seed": r.randrange(1 << 30)}, "setup": texts + pick + other, "threads": [pick, other], "final": []}]}
    nt = r.choice([1, 2, 2, 3, 3, 4])
    common = []
    for _ in range(r.randint(1, 4)):  # texts that several threads parse, in the logics that have them
        fam = r.choice([["pl", "ltl", "pltl"], ["pl"], ["ltl"], ["pltl"], ["ldl"], ["ldl"]])
        if len(fam) == 3:
            t = g.term("pl", r.randint(0, 3))
            t = strip_bool(t)
            text = model.render(t, "pl", r)
            for lg in fam:
                common.append({"o": "parse", "lg": lg, "text": text, "term": t})
        else:
            common.append(parse_op(g, r, fam[0], 3))
    # texts that differ only in blanks inside and outside quotes
    if r.random() < 0.4:
        for nm in ('"a b"', '"a  b"', '"ab"', '" ab"'):
            lg = r.choice(["pl", "ltl", "pltl"])
            t = ["and", ["atom", nm], ["atom", "p"]]
            common.append({"o": "parse", "lg": lg, "text": model.render(t, lg, r), "term": t})
    for i in range(nt):
        ops = []
        for _ in range(r.randint(2, 7)):
            x = r.random()
            if x < 0.4:
                ops.append(dict(r.choice(common)))
            elif x < 0.75:
                ops.append(parse_op(g, r))
            elif x < 0.82:
                ops.append(near_op(g, r, r.choice([c["lg"] for c in common] + ["pl"])))
            elif x < 0.9:
                ops.append(bad_op(g, r, r.choice([c["lg"] for c in common] + ["pl"])))
            elif x < 0.95:
                ops.append({"o": "reset"})
            else:
                ops.append(build_op(g, r))
        if r.random() < 0.35:
            j = r.randrange(len(ops))
            ops[j]["f"] = {"inj": [r.choice([1, 2, 5, 10, 30, 80, 200, 500]) + r.randint(0, 20), "KeyboardInterrupt"]}
            if ops[j]["o"] == "reset":
                del ops[j]["f"]
            else:
                again = {k: v for k, v in ops[j].items() if k != "f"}
                ops.insert(j + 1, again)
        ths.append(ops)
    if r.random() < 0.25:  # texts at the edge: long, deep
        lg = g.any_logic()
        t = g.wide(lg, r.randint(10, 40)) if r.random() < 0.6 else g.deep(lg, r.randint(5, 25))
        r.choice(ths).append(parse_op(g, r, lg, t=t))
    if r.random() < 0.4:
        every = everywhere(g, r)
        for _ in range(r.randint(1, 2)):
            for op in r.sample(every, len(every)):
                ops = r.choice(ths)
                ops.insert(r.randint(0, len(ops)), dict(op))
        common += every
    last = [near_op(g, r) for _ in range(r.randint(2, 8))] + everywhere(g, r)
    if r.random() < 0.35:  # and many short ones
        last += [near_op(g, r, small=True) for _ in range(r.randint(100, 400))]
    ph = phase(r, setup, ths, [dict(c) for c in common] + [bad_op(g, r)] + last, p_opcode=0.12)
    if r.random() < 0.15:
        ph["also"] = ["LARK"]
        ph["gran"] = "line"
    return {"phases": [ph]}


def strip_bool(t):
    """Replace logical constants, which are written differently in the temporal logics."""
    if t[0] in ("true", "false"):
        return ["atom", "p"]
    return [t[0]] + [strip_bool(x) if isinstance(x, list) else x for x in t[1:]]


# ----------------------------------------------------------------------------------------------- C02


def c02(r, tier):
    nm = Names()
    g = gen.Gen(r, natoms=r.randint(1, 3), odd=0.05)
    setup, pool = [], []
    for _ in range(r.randint(0, 3)):
        d, lg = nm(), r.choice(["pl", "ltl", "pltl", "ldl"])
        setup.append(build_op(g, r, lg, 2, d=d))
        pool.append((d, lg))
    ths = []
    nt = r.choice([2, 2, 3, 4])
    shared_terms = [(lg, g.term(lg, 2)) for lg in [r.choice(["pl", "ltl", "pltl", "ldl"]) for _ in range(3)]]
    if r.random() < 0.5:
        lg = r.choice(["pl", "ltl", "pltl"])
        shared_terms = [(lg, g.term(lg, r.randint(0, 2))) for _ in range(2)]
    resets = r.random() < 0.8
    uniq = 0
    for i in range(nt):
        ops = []
        mine = list(pool)
        for _ in range(r.randint(1, 6)):
            x = r.random()
            if x < 0.25:
                lg, t = r.choice(shared_terms)
                ops.append(build_op(g, r, lg, t=t if r.random() < 0.7 else g.variant(t, lg)))
            elif x < 0.5:  # an atom nobody else uses
                uniq += 1
                lg = r.choice(["pl", "ltl", "pltl"])
                t = ["atom", f"u{uniq}"]
                y = r.random()
                if y < 0.6:
                    t = [r.choice(["and", "or", "implies", "equiv"]), t, g.atom()]
                    if y < 0.2:
                        t = ["not", t]
                ops.append(build_op(g, r, lg, t=t) if r.random() < 0.6 else parse_op(g, r, lg, t=t))
            elif x < 0.62 and mine:
                op, lg = comb_op(g, r, mine, nm())
                mine.append((op["d"], lg))
                ops.append(op)
            elif x < 0.72 and mine:
                v, lg = r.choice(mine)
                ops.append(bad_build(r, v, lg))
            elif x < 0.76:
                ops.append(bad_op(g, r))
            elif resets and x < 0.93:
                ops.append({"o": "reset"})
            else:
                ops.append(parse_op(g, r, depth=2))
        ths.append(ops)
    small = True
    if r.random() < 0.06:  # more formulas than a table with a limit would hold
        (setup if r.random() < 0.5 else r.choice(ths)).append(history(r, nm, what=[r.choice(["build", "parse"])]))
        small = False
    final = [{"o": "ctx"}]
    for lg, t in shared_terms:
        final.append({"o": "rebuild", "lg": lg, "term": t})
    final += [{"o": "ctx"}, {"o": "ctxempty"}]
    lg, t = r.choice(shared_terms)
    final += [build_op(g, r, lg, t=t), {"o": "ctx"}]
    return {"registry": True, "phases": [phase(r, setup, ths, final, small=small, p_opcode=0.5 if small else 0)]}


# ----------------------------------------------------------------------------------------------- C03


def c03(r, tier):
    nm = Names()
    g = gen.Gen(r, natoms=r.randint(1, 3), odd=0.1)
    setup, pool = [], []
    lgs = r.choice([["pl"], ["ltl"], ["pltl"], ["ldl"], ["pl", "ltl", "pltl"], ["re", "ldl"]])

    def mk(lg, t):
        d = nm()
        setup.append(build_op(g, r, lg, t=t, d=d))
        pool.append((d, lg))
        if r.random() < 0.5:  # a copy has no memoised hash yet
            d2 = nm()
            setup.append({"o": "copy", "v": d, "how": r.choice(["copy", "deep", "pickle"]), "proto": r.randint(0, 5), "d": d2, "lazy": True})
            pool.append((d2, lg))

    for _ in range(r.randint(2, 4)):
        lg = r.choice(lgs)
        t = g.regex(2) if lg == "re" else g.term(lg, r.randint(0, 3)) if r.random() < 0.93 else g.wide(lg, r.randint(4, 30))
        mk(lg, t)
        if r.random() < 0.8:
            mk(lg, g.variant(t, lg))
            if r.random() < 0.5:
                mk(lg, t)
        if lg in ("pl", "ltl", "pltl") and r.random() < 0.5:
            t2 = strip_bool_deep(t) if t[0] in ("and", "or", "not", "implies", "equiv", "atom") else None
            if t2 and only_prop(t2):
                for l2 in ("pl", "ltl", "pltl"):
                    mk(l2, t2)
    sets = []
    for _ in range(2):
        d = nm("s")
        setup.append({"o": "mkset", "vs": [r.choice(pool)[0] for _ in range(r.randint(1, 4))], "d": d, "dict": r.random() < 0.5})
        sets.append(d)
    interp = nm("i")
    setup.append({"o": "mkint", "kind": "set", "spec": ["a", "p"], "d": interp})
    ths = []
    for i in range(r.choice([1, 2, 2, 3, 4])):
        ops = []
        mine = list(pool)
        for _ in range(r.randint(2, 8)):
            x = r.random()
            v, lg = r.choice(mine)
            if x < 0.28:
                ops.append({"o": "hash", "v": v, "dunder": r.random() < 0.2})
            elif x < 0.5:
                same = [p for p in mine if p[1] == lg] if r.random() < 0.8 else mine
                ops.append({"o": "eq", "a": v, "b": r.choice(same)[0], "ne": r.random() < 0.25})
            elif x < 0.66:
                ops.append({"o": "inset", "v": v, "s": r.choice(sets)})
            elif x < 0.72:
                d = nm("s")
                ops.append({"o": "mkset", "vs": [r.choice(mine)[0] for _ in range(r.randint(1, 4))], "d": d, "dict": r.random() < 0.5})
            elif x < 0.80:
                op, l2 = comb_op(g, r, mine, nm())
                mine.append((op["d"], l2))
                ops.append(op)
            elif x < 0.86:
                d = nm()
                ops.append({"o": "copy", "v": v, "how": r.choice(["copy", "deep", "pickle"]), "proto": r.randint(0, 5), "d": d, "lazy": r.random() < 0.5})
                mine.append((d, lg))
            elif x < 0.9 and lg != "re":
                ops.append({"o": "print", "v": v})
            elif x < 0.93:
                ops.append({"o": "repr", "v": v})
            elif x < 0.96 and lg == "pl":
                ops.append({"o": "eval", "v": v, "i": interp})
            else:
                ops.append({"o": "reset"})
        ths.append(ops)
    long = r.random() < 0.06
    if long:
        (setup if r.random() < 0.5 else r.choice(ths)).append(history(r, nm, what=["build"] + r.sample(["hash", "eq", "copy", "print"], r.randint(1, 2))))
    final = [{"o": "hash", "v": v} for v, _ in pool]
    final += [{"o": "inset", "v": v, "s": s} for v, _ in pool for s in sets]
    for a, _ in pool:
        for b, _ in pool:
            final.append({"o": "eq", "a": a, "b": b})
    return {"phases": [phase(r, setup, ths, final, small=not long, p_opcode=0 if long else 0.5)]}


def only_prop(t):
    return t[0] == "atom" or t[0] in ("and", "or", "not", "implies", "equiv") and all(only_prop(x) for x in t[1:])


def strip_bool_deep(t):
    return strip_bool(t)


# ----------------------------------------------------------------------------------------------- C04


def c04(r, tier):
    nm = Names()
    g = gen.Gen(r, natoms=r.randint(2, 4), odd=0.1)
    setup, pool, terms = [], [], {}
    for _ in range(r.randint(2, 4)):
        lg = r.choice(["pl", "ltl", "pltl", "ldl", "ldl", "re"])
        t = g.regex(2) if lg == "re" else (g.term(lg, r.randint(0, 4)) if r.random() < 0.8 else g.wide(lg, r.randint(4, 40)) if r.random() < 0.25 else g.deep(lg, r.randint(5, 30)))
        d = nm()
        if lg != "re" and r.random() < 0.4:
            setup.append(parse_op(g, r, lg, t=t, d=d))
        else:
            setup.append(build_op(g, r, lg, t=t, d=d))
        pool.append((d, lg))
        terms[d] = (lg, t)
        if r.random() < 0.4:
            d2 = nm()
            setup.append({"o": "copy", "v": d, "how": r.choice(["copy", "deep", "pickle"]), "proto": r.randint(0, 5), "d": d2, "lazy": True})
            pool.append((d2, lg))
            terms[d2] = (lg, t)
    if r.random() < 0.3:
        setup.append({"o": "reset"})
    ths, dumps = [], []
    for i in range(r.choice([1, 2, 2, 3])):
        ops = []
        mine = list(pool)
        for _ in range(r.randint(2, 6)):
            x = r.random()
            v, lg = r.choice(mine)
            if x < 0.45:
                shape = r.choice(["one", "one", "list", "set", "fset", "dict"])
                vs = [v] if shape == "one" else [r.choice(pool)[0] for _ in range(r.randint(1, 3))]
                if any(a not in terms for a in vs):
                    continue
                op = {"o": "dump", "vs": vs, "shape": shape, "proto": r.randint(0, 5), "slot": nm("k"), "py": r.random() < 0.2}
                if r.random() < 0.25:
                    op["f"] = {"inj": [r.randint(1, 40), r.choice(["KeyboardInterrupt", "MemoryError"])]}
                dumps.append(op)
                ops.append(op)
            elif x < 0.65:
                d = nm()
                op = {"o": "copy", "v": v, "how": r.choice(["copy", "deep", "pickle"]), "proto": r.randint(0, 5), "d": d}
                if r.random() < 0.25:
                    op["f"] = {"inj": [r.randint(1, 60), r.choice(["KeyboardInterrupt", "MemoryError"])]}
                ops.append(op)
            elif x < 0.75:
                ops.append({"o": "hash", "v": v})
            elif x < 0.82 and lg != "re":
                ops.append({"o": "print", "v": v})
            elif x < 0.9:
                ops.append({"o": "eq", "a": v, "b": r.choice([p for p in mine if p[1] == lg])[0]})
            elif x < 0.95:
                ops.append({"o": "reset"})
            else:
                op, l2 = comb_op(g, r, mine, nm())
                ops.append(op)
        ths.append(ops)
    if r.random() < 0.04:
        r.choice(ths).append(history(r, nm, n=turns(r, False), what=["build", "copy"]))
    final = [{"o": "probe"}]
    # the second incarnation
    loads = []
    for op in dumps:
        ld = {"o": "load", "slot": op["slot"], "shape": op["shape"], "terms": [terms[a] for a in op["vs"]]}
        loads.append(ld)
        if op["shape"] == "one" and r.random() < 0.5:
            ld["d"] = nm("l")
        if r.random() < 0.4:
            loads.append({"o": "load", "slot": op["slot"], "shape": op["shape"], "terms": ld["terms"], "cut": r.choice([0, 0.1, 0.5, 0.9, r.random(), 1])})
    r.shuffle(loads)
    got = [ld for ld in loads if "d" in ld]
    after = []
    for ld in got:
        lg = ld["terms"][0][0]
        after.append({"o": "hash", "v": ld["d"]})
        after.append({"o": "comb", "k": "star" if lg == "re" else "not", "a": [ld["d"]], "d": nm()})
        after.append({"o": "copy", "v": ld["d"], "how": "pickle", "proto": r.randint(0, 5), "d": nm()})
    pre = [build_op(g, r, *(lambda x: (x[0], 0, x[1]))(terms[r.choice(sorted(terms))]))] if r.random() < 0.5 else []
    k = r.choice([1, 2])
    ths2 = [loads] if k == 1 else [loads[::2] + loads[:1], loads[1::2] + loads[:1]]
    ph2 = phase(r, pre, ths2, after + [{"o": "probe"}], small=True)
    salts = [r.randrange(NSALT), r.randrange(NSALT)]
    return {"salts": salts, "phases": [phase(r, setup, ths, final, small=True), ph2]}


# ----------------------------------------------------------------------------------------------- C05

ABORTS = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RecursionError"]


def c05(r, tier):
    nm = Names()
    g = gen.Gen(r, natoms=r.randint(2, 4), odd=0.15)
    setup, pool, terms = [], [], {}
    for _ in range(r.randint(2, 4)):
        lg = g.any_logic()
        t = g.term(lg, r.randint(0, 3)) if r.random() < 0.7 else g.deep(lg, r.randint(4, 25)) if r.random() < 0.8 else g.wide(lg, r.randint(4, 30))
        d = nm()
        setup.append(build_op(g, r, lg, t=t, d=d))
        pool.append((d, lg))
        terms[d] = (lg, t)
        if r.random() < 0.5:
            d2 = nm()
            setup.append({"o": "copy", "v": d, "how": r.choice(["copy", "deep", "pickle"]), "proto": r.randint(0, 5), "d": d2, "lazy": True})
            pool.append((d2, lg))
            terms[d2] = (lg, t)
    t = g.term("pl", 3)
    setup.append(build_op(g, r, "pl", t=t, d="e"))
    pool.append(("e", "pl"))
    terms["e"] = ("pl", t)
    ints = []
    for _ in range(2):
        d = nm("i")
        kind = r.choice(["dict", "set", "rdict", "rset"])
        syms = sorted(model.atoms(model.node(t, "pl")))
        spec = [s for s in syms if r.random() < 0.5] if kind.endswith("set") else {s: r.random() < 0.5 for s in syms}
        setup.append({"o": "mkint", "kind": kind, "spec": spec, "d": d})
        ints.append((d, kind))
    setup.append({"o": "mkset", "vs": [v for v, _ in pool[:3]], "d": "S"})
    setup.append({"o": "mkck", "d": "ck"})

    from sim import ndspec

    proofs = ndspec.add_proofs(r, setup, nm, 2) if r.random() < 0.3 else []

    def one(mine):
        x = r.random()
        v, lg = r.choice(mine)
        if proofs and x < 0.15:
            return {"o": "chk", "v": r.choice(proofs), "ck": r.choice(["ck", None])}
        if x < 0.25:
            return parse_op(g, r, depth=3) if r.random() < 0.8 else bad_op(g, r)
        if x < 0.40:
            return build_op(g, r, depth=3)
        if x < 0.50:
            op, l2 = comb_op(g, r, mine, nm())
            mine.append((op["d"], l2))
            return op
        if x < 0.58:
            return {"o": "print", "v": v}
        if x < 0.66:
            return {"o": "hash", "v": v}
        if x < 0.72:
            return {"o": "eq", "a": v, "b": r.choice([p for p in mine if p[1] == lg])[0]}
        if x < 0.76:
            return {"o": "inset", "v": v, "s": "S"}
        if x < 0.88:
            return {"o": "eval", "v": "e", "i": r.choice(ints)[0]}
        if x < 0.96:
            return {"o": "copy", "v": v, "how": r.choice(["copy", "deep", "pickle"]), "proto": r.randint(0, 5), "d": nm(), "lazy": r.random() < 0.5}
        return {"o": "reset"}

    def fault(op):
        if op["o"] == "eval" and dict(ints)[op["i"]].startswith("r") and r.random() < 0.5:
            return {"raise": r.randint(0, 4)}
        if r.random() < 0.2:
            return {"stack": r.choice([3, 6, 10, 15, 20, 30, 45, 60, 90, 130, 200])}
        return {"inj": [min(r.randint(1, 12) if r.random() < 0.4 else int(r.expovariate(1 / 120.0)) + 1, 3000), r.choice(ABORTS)]}

    ths = []
    bursts = r.random() < 0.12
    for i in range(r.choice([1, 1, 2, 3]) if not bursts else r.choice([1, 1, 2])):
        ops = []
        mine = list(pool)
        for _ in range(r.randint(2, 6)):
            op = one(mine)
            if bursts and r.random() < 0.4:
                b = {k: v for k, v in op.items()}
                if "d" in b:
                    b["d"] = nm("x")
                ops.append(burst(r, b, fault(op)))
                ops.append(op)
            elif r.random() < 0.6:
                again = {k: v for k, v in op.items()}
                op = dict(op)
                op["f"] = fault(op)
                if "d" in op:
                    op["d"] = nm("x")
                ops.append(op)
                if r.random() < 0.3:
                    op2 = dict(again)
                    op2["f"] = fault(op2)
                    if "d" in op2:
                        op2["d"] = nm("x")
                    ops.append(op2)
                ops.append(again)
            else:
                ops.append(op)
        ths.append(ops)
    final = []
    for d in sorted(terms):
        lg, t = terms[d]
        final.append(build_op(g, r, lg, t=t, d=nm("z")))
        final.append(parse_op(g, r, lg, t=t, d=nm("z")) if renderable(t) else {"o": "hash", "v": d})
        final.append({"o": "print", "v": d})
        final.append({"o": "reparse", "v": d, "lg": lg})
    for i, _ in ints:
        final.append({"o": "eval", "v": "e", "i": i})
    for p in proofs:
        final.append({"o": "chk", "v": p, "ck": "ck"})
    final.append(bad_op(g, r))
    final.append({"o": "probe"})
    ph = phase(r, setup, ths, final, p_opcode=0.15)
    return {"phases": [ph]}


def renderable(t):
    return t[0] != "rshift" and all(renderable(x) for x in t[1:] if isinstance(x, list))


def filled(shape, names):
    return ["atom", next(names)] if shape == "atom" else [shape[0]] + [filled(x, names) for x in shape[1:]]


# ----------------------------------------------------------------------------------------------- C06


def c06(r, tier):
    nm = Names()
    g = gen.Gen(r, natoms=r.randint(1, 5), odd=0.15)
    setup, pool, nodes, wides = [], [], {}, {}
    for _ in range(r.randint(1, 4)):
        x = r.random()
        t = g.term("pl", r.randint(0, 4)) if x < 0.75 else (g.wide("pl", r.randint(3, r.choice([8, 12, 40]))) if x < 0.9 else g.deep("pl", r.randint(4, 20)))
        d = nm()
        setup.append(build_op(g, r, "pl", t=t, d=d) if r.random() < 0.7 or not renderable(t) else parse_op(g, r, "pl", t=t, d=d))
        pool.append(d)
        nodes[d] = sorted(model.atoms(model.node(t, "pl")))
        if 0.75 <= x < 0.9:
            wides[d] = t
    every = sorted({a for v in nodes.values() for a in v}) or ["a"]

    def spec(kind, names):
        names = [n for n in names]
        if len(names) > 2 and r.random() < 0.25:  # one against all others
            k, b = r.choice([names[0], names[-1], r.choice(names)]), r.random() < 0.5
            return [n for n in names if (n == k) == b] if kind.endswith("set") else {n: (n == k) == b for n in names}
        if kind.endswith("set"):
            return [n for n in names if r.random() < 0.5] + (["zz"] if r.random() < 0.2 else [])
        return {n: r.random() < 0.5 for n in names if r.random() < 0.85}

    kinds = ["dict", "dict", "set", "set", "ddict", "rdict", "rset"]
    shared = []
    for _ in range(r.randint(1, 3)):
        d, kind = nm("i"), r.choice(kinds)
        setup.append({"o": "mkint", "kind": kind, "spec": spec(kind, every), "d": d})
        shared.append((d, kind))

    def edits(kind):
        out = []
        for n in r.sample(every, min(len(every), r.randint(1, 2))):
            out.append([n, r.choice([True, False, None])])
        return out

    ths = []
    for i in range(r.choice([1, 2, 2, 3])):
        ops = []
        mine = []
        mypool = list(pool)
        for _ in range(r.randint(3, 12)):
            x = r.random()
            if x < 0.5:
                i_ = r.choice(mine + shared) if mine else r.choice(shared)
                v = r.choice(mypool)
                op = {"o": "eval", "v": v, "i": i_[0]}
                if r.random() < 0.15:
                    if i_[1].startswith("r") and i_ in mine:
                        op["f"] = {"raise": r.randint(0, 3)}
                    elif r.random() < 0.8:
                        op["f"] = {"inj": [r.randint(1, 60), r.choice(["KeyboardInterrupt", "MemoryError"])]}
                    else:
                        op["f"] = {"stack": r.choice([5, 10, 20, 40])}
                ops.append(op)
                if mine and r.random() < 0.6:  # the same question again after the caller changed the content
                    m = r.choice(mine)
                    ops.append({"o": "eval", "v": v, "i": m[0]})
                    ops.append({"o": "mut", "i": m[0], "edits": edits(m[1])})
                    ops.append({"o": "eval", "v": v, "i": m[0]})
            elif x < 0.62:
                d, kind = nm("i"), r.choice(kinds)
                ops.append({"o": "mkint", "kind": kind, "spec": spec(kind, every), "d": d})
                mine.append((d, kind))
            elif x < 0.75 and mine:
                m = r.choice(mine)
                ops.append({"o": "mut", "i": m[0], "edits": edits(m[1])})
            elif x < 0.85 and mine:  # an interpretation dies and another takes its place
                m = mine.pop(r.randrange(len(mine)))
                d = nm("i")
                v = r.choice(mypool)
                ops.append({"o": "eval", "v": v, "i": m[0]})
                ops.append({"o": "drop", "vs": [m[0]]})
                ops.append({"o": "mkint", "kind": m[1], "spec": spec(m[1], every), "d": d})
                ops.append({"o": "eval", "v": v, "i": d})
                mine.append((d, m[1]))
            elif x < 0.92:  # a formula dies and another takes its place
                d, e = nm("f"), nm("f")
                i_ = r.choice(shared)
                k = r.choice(["and", "or", "implies", "equiv", "not"])
                ops.append({"o": "comb", "k": k, "a": [r.choice(pool) for _ in range(1 if k == "not" else 2)], "d": d})
                ops.append({"o": "eval", "v": d, "i": i_[0]})
                ops.append({"o": "drop", "vs": [d]})
                ops.append({"o": "reset"})
                if k != "not":
                    k = r.choice(["and", "or", "implies", "equiv"])
                ops.append({"o": "comb", "k": k, "a": [r.choice(pool) for _ in range(1 if k == "not" else 2)], "d": e})
                ops.append({"o": "eval", "v": e, "i": i_[0]})
            elif x < 0.965 and every != ["a"]:  # the same, with all its symbols
                i_ = r.choice(shared)
                own = [nm("s") if r.random() < 0.4 else n for n in r.sample(every, min(len(every), 2))]
                shape = r.choice([["atom"], ["atom"], ["not", "atom"], ["and", "atom", "atom"], ["or", ["not", "atom"], "atom"], ["implies", "atom", "atom"]])
                for _ in range(r.randint(2, 4)):
                    e = nm("f")
                    names = iter(r.sample(own, len(own)) + ["zz", "a"])
                    t = ["atom", next(names)] if shape == ["atom"] else filled(shape, names)
                    ops += [{"o": "build", "lg": "pl", "term": t, "d": e}, {"o": "eval", "v": e, "i": i_[0]}, {"o": "drop", "vs": [e]}, {"o": "reset"}]
            else:
                ops.append({"o": "reset"})
        ths.append(ops)
    long = r.random() < 0.06
    if long:
        x = r.random()
        if x < 0.6:
            h = history(r, nm, "pl", what=["build", "eval"], i=r.choice(shared)[0])
        else:  # many interpretations
            d, v = nm("j"), r.choice(pool)
            k, m = r.choice(every), r.choice(shared)
            h = {"o": "many", "n": turns(r), "ops": [{"o": "mkint", "kind": r.choice(["dict", "set"]), "spec": [k, "z%"] if r.random() < 0.5 else ["z%"], "d": d},
                                                     {"o": "eval", "v": v, "i": d}, {"o": "mut", "i": d, "edits": [[k, r.choice([True, False])]]}, {"o": "eval", "v": v, "i": d}]}
            if h["ops"][0]["kind"] == "dict":
                h["ops"][0]["spec"] = {k: r.random() < 0.5, "z%": True}
        (setup if r.random() < 0.3 else r.choice(ths)).append(h)
    final = [{"o": "eval", "v": v, "i": i} for v in pool for i, _ in shared] + [{"o": "node", "v": v} for v in pool]
    for v, t in wides.items():  # wide formulas: what each of some operands does alone
        lits = [(x[1][1], False) if x[0] == "not" else (x[1], True) for x in t[1:]]
        for k in [0, len(lits) - 1] + r.sample(range(len(lits)), min(6, len(lits))):
            base = [t[0] in ("and", "implies") or (t[0] == "equiv" and r.random() < 0.5)] * len(lits)
            if t[0] == "implies":
                base[-1] = False
            if r.random() < 0.9:
                base[k] = not base[k]
            d, on = nm("i"), {n: b == pos for (n, pos), b in zip(lits, base)}
            kind = r.choice(["dict", "set"])
            final += [{"o": "mkint", "kind": kind, "spec": on if kind == "dict" else [n for n in on if on[n]], "d": d}, {"o": "eval", "v": v, "i": d}]
    return {"phases": [phase(r, setup, ths, final, small=not long, p_opcode=0 if long else 0.3)]}


# ----------------------------------------------------------------------------------------------- C07


def c07(r, tier):
    nm = Names()
    g = gen.Gen(r, natoms=r.randint(2, 4), odd=r.choice([0.1, 0.4]))
    setup, pool, terms = [], [], {}
    for _ in range(r.randint(2, 5)):
        lg = r.choice(["pl", "ltl", "pltl", "ldl", "ldl"])
        x = r.random()
        t = g.term(lg, r.randint(0, 4), rshift=True) if x < 0.8 else (g.wide(lg, r.randint(3, r.choice([15, 40]))) if x < 0.9 else g.deep(lg, r.randint(4, 20)))
        d = nm()
        setup.append(build_op(g, r, lg, t=t, d=d) if not renderable(t) or r.random() < 0.6 else parse_op(g, r, lg, t=t, d=d))
        pool.append((d, lg))
        terms[d] = (lg, t)
        if r.random() < 0.5:
            d = nm()
            t = g.variant(t, lg)
            setup.append(build_op(g, r, lg, t=t, d=d))
            pool.append((d, lg))
            terms[d] = (lg, t)
    ths, slots = [], []
    for i in range(r.choice([1, 2, 2, 3])):
        ops = []
        mine = list(pool)
        for _ in range(r.randint(2, 7)):
            x = r.random()
            v, lg = r.choice(mine)
            if x < 0.55:
                op = {"o": "print", "v": v}
                if r.random() < 0.2:
                    op["f"] = {"inj": [r.randint(1, 80), r.choice(ABORTS)]} if r.random() < 0.8 else {"stack": r.choice([5, 10, 20, 40])}
                ops.append(op)
                if v in terms and r.random() < 0.6:
                    s = nm("k")
                    ops.append({"o": "save", "v": v, "slot": s})
                    slots.append((s, terms[v]))
            elif x < 0.75:
                ops.append({"o": "reparse", "v": v, "lg": lg, "d": nm("w")})
            elif x < 0.85:
                op, l2 = comb_op(g, r, mine, nm())
                mine.append((op["d"], l2))
                ops.append(op)
                ops.append({"o": "print", "v": op["d"]})
                ops.append({"o": "reparse", "v": op["d"], "lg": l2})
            elif x < 0.92:
                ops.append({"o": "reset"})
            else:
                ops.append(bad_op(g, r, lg))
        ths.append(ops)
    if r.random() < 0.06:
        (setup if r.random() < 0.4 else r.choice(ths)).append(history(r, nm, what=[r.choice(["build", "parse"]), r.choice(["print", "print", "reparse"])]))
    final = []
    for v, lg in pool:
        s = nm("k")
        final += [{"o": "print", "v": v}, {"o": "reparse", "v": v, "lg": lg}, {"o": "save", "v": v, "slot": s}]
        slots.append((s, terms[v]))
    ops2 = []
    for s, (lg, t) in slots:
        ops2.append({"o": "reparse", "slot": s, "term": t, "lg": lg, "d": nm("y")})
    r.shuffle(ops2)
    pre = [parse_op(g, r) for _ in range(r.randint(0, 2))]
    k = r.choice([1, 2])
    ph2 = phase(r, pre, [ops2] if k == 1 else [ops2[::2] + ops2[:2], ops2[1::2] + ops2[:2]], [], small=True, p_opcode=0.1)
    return {"salts": [r.randrange(NSALT), r.randrange(NSALT)], "phases": [phase(r, setup, ths, final, p_opcode=0.12), ph2]}


# ----------------------------------------------------------------------------------------------- C08


def c08(r, tier):
    from sim import ndspec

    nm = Names()
    setup = []
    proofs = ndspec.add_proofs(r, setup, nm, r.randint(2, 5))
    cks = []
    for _ in range(r.randint(1, 2)):
        d = nm("ck")
        setup.append({"o": "mkck", "d": d})
        cks.append(d)
    ths = []
    for i in range(r.choice([1, 2, 2, 3])):
        ops = []
        for _ in range(r.randint(2, 6)):
            if r.random() < 0.12:
                ops.append({"o": "reset"})
                continue
            op = {"o": "chk", "v": r.choice(proofs), "ck": r.choice(cks + [cks[0], cks[0], None])}
            if r.random() < 0.2:
                op["f"] = {"inj": [r.randint(1, 150), r.choice(ABORTS)]} if r.random() < 0.85 else {"stack": r.choice([4, 8, 12, 20, 40])}
            ops.append(op)
        ths.append(ops)
    long = r.random() < 0.07
    if long:
        d = nm("hp")
        n = r.choice([20, 40, 40, 80, 140])
        k = r.random()
        if max(len(repr(o)) for o in setup) > 1000:
            n = min(n, 30)
        src = [dict(o, ren="%", d=d) for o in setup if o["o"] == "mkproof"]
        if k < 0.5:  # the same proofs about ever other predicates
            h = {"o": "many", "n": n, "ops": [y for o in r.sample(src, min(2, len(src))) for y in (o, {"o": "chk", "v": d, "ck": r.choice([cks[0], None])})]}
        elif k < 0.75:
            h = {"o": "many", "n": n, "ops": [{"o": "chk", "v": p, "ck": r.choice([cks[0], None])} for p in r.sample(proofs, 2)]}
        else:
            h = burst(r, {"o": "chk", "v": r.choice(proofs), "ck": cks[0]}, {"inj": [r.randint(1, 150), r.choice(ABORTS)]} if r.random() < 0.85 else {"stack": r.choice([4, 8, 12, 20, 40])}, n)
        r.choice(ths).insert(0, h)
    final = [{"o": "chk", "v": p, "ck": ck} for p in proofs for ck in (cks[0], None)]
    for _ in range(r.randint(1, 4) if r.random() < 0.6 else r.randint(10, 25)):
        ndspec.add_variants(r, final, nm, cks + [None])
    return {"phases": [phase(r, setup, ths, final, small=not long, p_opcode=0 if long else 0.15)]}


# ----------------------------------------------------------------------------------------------- C10


def c10(r, tier):
    from sim import ndspec

    nm = Names()
    setup = [{"o": "fol", "k": "var", "name": n, "d": n} for n in ("x", "y")] + [{"o": "fol", "k": "const", "name": n, "d": n} for n in ("a", "b")]
    terms = ["x", "y", "a", "b"]
    lists, objs, owned = [], [], {}
    g = gen.Gen(r, natoms=3, odd=0.0)
    plv = []
    lg = r.choice(["pl", "ltl", "pltl", "re", "ldl"])
    many = r.random() < 0.15
    for i in range(14 if many else 3):
        d = nm()
        t = g.regex(1) if lg == "re" else g.term(lg, 1)
        if many and i > 2:
            t = ["prop", ["atom", f"w{i}"]] if lg == "re" else ["atom", f"w{i}"] if lg != "ldl" else ["dia", ["prop", ["atom", f"w{i}"]], ["true"]]
        setup.append(build_op(g, r, lg, t=t, d=d))
        plv.append(d)

    def make(ops, shared=False):
        x = r.random()
        d = nm("o")
        if x < 0.35 or not lists:
            l = nm("l")
            a = [r.choice(terms) for _ in range(r.choice([0, 1, 2, 2, 3, 3, 6, 12]))]
            ops.append({"o": "fol", "k": "list", "a": a, "d": l})
            lists.append(l)
            owned[l] = a
            ops.append({"o": "fol", "k": "pred", "name": r.choice("PQR"), "l": l, "d": d})
        elif x < 0.5:
            ops.append({"o": "fol", "k": "pred0", "name": r.choice("ST"), "d": d})
        elif x < 0.7:
            l = nm("l")
            a = [r.choice(terms) for _ in range(r.choice([1, 2, 2, 3, 5, 12]))]
            ops.append({"o": "fol", "k": "list", "a": a, "d": l})
            lists.append(l)
            f = nm("t")
            ops.append({"o": "fol", "k": "func", "name": r.choice("fg"), "l": l, "d": f})
            objs.append(f)
            l2 = nm("l")
            ops.append({"o": "fol", "k": "list", "a": [f, r.choice(terms)], "d": l2})
            lists.append(l2)
            ops.append({"o": "fol", "k": "pred", "name": r.choice("PQR"), "l": l2, "d": d})
        elif x < 0.85:
            l = nm("l")
            ops.append({"o": "fol", "k": "list", "a": [r.choice(plv) for _ in range(r.choice([2, 3, 3, 6, 12]))], "d": l})
            lists.append(l)
            c = r.choice({"pl": ["and", "or", "implies", "equiv"], "ltl": ["U", "R", "and", "or", "W", "M"], "pltl": ["S", "T", "and", "implies"],
                          "re": ["seq", "union"], "ldl": ["and", "or", "implies", "equiv"]}[lg])
            ops.append({"o": "fol", "k": "nary", "c": c, "l": l, "d": d})
        else:
            p = nm("o")
            ops.append({"o": "fol", "k": "pred0", "name": "U", "d": p})
            objs.append(p)
            ops.append({"o": "fol", "k": "quant", "q": r.choice(["all", "ex"]), "x": r.choice(["x", "y"]), "p": p, "d": d})
        objs.append(d)
        if r.random() < 0.25 and not (0.7 <= x < 0.85 and lists):
            q = nm("o")
            ops.append({"o": "fol", "k": "quant", "q": r.choice(["all", "ex"]), "x": r.choice(["x", "y"]), "p": d, "d": q})
            objs.append(q)

    for _ in range(r.randint(1, 3)):
        make(setup)
    if lg == "pl":
        k = r.choice(["dict", "dict", "ddict", "set"])
        spec = {s: r.random() < 0.5 for s in g.pool if r.random() < 0.6}
        setup.append({"o": "mkint", "kind": k, "spec": sorted(spec) if k == "set" else spec, "d": "i"})
    ths = []
    base_objs, base_lists = list(objs), list(lists)
    nthreads = r.choice([1, 2, 2, 3])
    for i in range(nthreads):
        ops = []
        objs[:] = base_objs
        lists[:] = list(base_lists)
        for _ in range(r.randint(3, 9)):
            x = r.random()
            if x < 0.2:
                make(ops)
            elif x < 0.4 and lists:
                ops.append({"o": "mutlist", "l": r.choice(lists), "how": r.choice(["append", "clear", "pop", "set", "rev"]), "x": r.choice(terms)})
            elif x < 0.6 and objs:
                ops.append({"o": "mutlist", "of": r.choice(objs + plv), "up": r.choice([0, 0, 1]), "how": r.choice(["append", "clear", "pop", "set", "rev"]), "x": r.choice(terms)})
            elif x < 0.7 and lg == "pl":
                ops.append({"o": "eval", "v": r.choice(plv), "i": "i"})
                if r.random() < 0.5:
                    ops.append({"o": "mut", "i": "i", "edits": [[r.choice(g.pool), r.choice([True, False, None])]]} if len(ths) == 0 and nthreads == 1 else {"o": "node", "v": r.choice(plv)})
            elif x < 0.9 and objs:
                ops.append({"o": "fpcheck", "v": r.choice(objs)})
            else:
                ops.append({"o": "node", "v": r.choice(plv)})
        # threads only change lists of the setup stage while others may be using them in a constructor
        if r.random() < 0.4 and base_lists:
            l = r.choice(base_lists)
            ops.append({"o": "fol", "k": "pred", "name": "W", "l": l, "d": nm("o"), "shared": True})
            objs.append(ops[-1]["d"])
            ops.append({"o": "mutlist", "l": l, "how": r.choice(["append", "clear", "set"]), "x": "b"})
        ops += [{"o": "fpcheck", "v": v} for v in objs]
        ths.append(ops)
    for ops in ths:
        for op in ops:
            if op["o"] == "fol" and op.get("l") in base_lists:
                op["shared"] = True
    final = [{"o": "fpcheck", "v": v} for v in base_objs] + [{"o": "node", "v": v} for v in plv]
    final += [{"o": "fol", "k": "pred0", "name": "Z", "d": nm("o")}]
    if r.random() < 0.3:
        ndspec.add_proofs(r, final, nm, 1)
        final.append({"o": "chk", "v": final[-1]["d"], "ck": None})
    if lg == "pl":
        final += [{"o": "eval", "v": v, "i": "i"} for v in plv]
    long = r.random() < 0.05
    if long:
        r.choice(ths).insert(0, history(r, nm))
    return {"phases": [phase(r, setup, ths, final, small=not long, p_opcode=0 if long else 0.4)]}


# ----------------------------------------------------------------------------------------------- C11


def limit(n, kind):
    """Library steps allowed for a call on arguments of written size n."""
    return 6000 + 1000 * n + 60 * n * n + 10 * n * n * n


def c11(r, tier):
    nm = Names()
    g = gen.Gen(r, natoms=r.randint(2, 4), odd=0.1)
    setup, pool, terms = [], [], {}

    def big():
        lg = g.any_logic()
        x = r.random()
        if x < 0.55:
            t = g.deep(lg, r.choice([8, 16, 24, 32, 40, 60]))
        elif x < 0.8:
            t = g.wide(lg, r.choice([8, 16, 32, 60]))
        else:
            t = g.term(lg, 4)
        return lg, t

    for _ in range(r.randint(1, 3)):
        lg, t = big()
        for k in range(2):
            d = nm()
            op = build_op(g, r, lg, t=t, d=d)
            setup.append(op)
            pool.append((d, lg))
            terms[d] = (lg, t)
        d2 = nm()
        setup.append({"o": "copy", "v": d, "how": r.choice(["deep", "pickle"]), "proto": 2, "d": d2, "lazy": True})
        pool.append((d2, lg))
        terms[d2] = (lg, t)
    setup.append({"o": "mkint", "kind": r.choice(["set", "dict"]), "spec": ["a", "b", "p"], "d": "i"})
    if setup[-1]["kind"] == "dict":
        setup[-1]["spec"] = {"a": True, "p": True}
    from sim import ndspec

    proofs = ndspec.add_proofs(r, setup, nm, 1) if r.random() < 0.3 else []
    heavy, weight = None, 0
    if r.random() < 0.2:
        from sim import ndforms

        p = ndforms.large(r)
        heavy, weight = nm("p"), ndforms.measure(p)
        setup.append({"o": "mkproof", "proof": p, "ok": True, "d": heavy, "lim": 20000 + 500 * weight + 60 * weight**2 + weight**3 // 4})

    def one():
        x = r.random()
        v, lg = r.choice(pool)
        n = model.size(terms[v][1])
        if proofs and x < 0.15:
            return {"o": "chk", "v": proofs[0], "ck": None, "lim": limit(150, "chk")}
        if x < 0.25:
            lg, t = big()
            if r.random() < 0.5:
                lg, t = terms[v]
            if not renderable(t):
                return {"o": "hash", "v": v, "lim": limit(n, "hash")}
            return dict(parse_op(g, r, lg, t=t), lim=limit(model.size(t), "parse"))
        if x < 0.45:
            lg, t = big() if r.random() < 0.5 else terms[v]
            return dict(build_op(g, r, lg, t=t), lim=limit(model.size(t), "build"))
        if x < 0.55:
            return {"o": "hash", "v": v, "lim": limit(n, "hash")}
        if x < 0.68:
            w, _ = r.choice([p for p in pool if p[1] == lg])
            return {"o": "eq", "a": v, "b": w, "lim": limit(n + model.size(terms[w][1]), "eq")}
        if x < 0.76:
            return {"o": "print", "v": v, "lim": limit(n, "print")}
        if x < 0.84:
            p = [q for q in pool if q[1] == "pl"]
            if not p:
                return {"o": "reset", "lim": 4000}
            v = r.choice(p)[0]
            return {"o": "eval", "v": v, "i": "i", "lim": limit(model.size(terms[v][1]), "eval")}
        if x < 0.92:
            return {"o": "copy", "v": v, "how": r.choice(["copy", "deep", "pickle"]), "proto": r.randint(0, 5), "d": nm(), "lazy": True, "lim": limit(n, "copy")}
        if x < 0.96:
            # long and awkward names
            nmx = r.choice(["a" + "b-" * r.randint(10, 60), "a" * r.randint(30, 200) + "$", '"' + "x " * r.randint(20, 80) + '"', "a" + "_-" * 40 + "_", '"' + "a" * 60])
            return {"o": "badbuild", "k": "name", "lg": "pl", "name": nmx, "a": v, "lim": limit(len(nmx), "name")} if nmx.endswith(("-", "$")) or nmx.count('"') == 1 else {
                "o": "build", "lg": "pl", "term": ["atom", nmx], "lim": limit(len(nmx), "name")}
        return {"o": "reset", "lim": 4000}

    ths = []
    for i in range(r.choice([1, 2, 2, 3, 4])):
        ops = []
        for _ in range(r.randint(1, 4)):
            op = one()
            if r.random() < 0.3 and op["o"] != "badbuild":
                op = dict(op)
                again = dict(op)
                op["f"] = {"inj": [int(r.expovariate(1 / 60.0)) + 1, r.choice(ABORTS)]} if r.random() < 0.85 else {"stack": r.choice([5, 10, 20, 40, 80])}
                if op["o"] == "copy":
                    again["d"] = nm()
                ops += [op, again]
            else:
                ops.append(op)
            if r.random() < 0.15:
                ops.append(bad_op(g, r))
        ths.append(ops)
    final = [one() for _ in range(3)]
    v, lg = r.choice(pool)  # everything, once, undisturbed
    n = model.size(terms[v][1])
    final += [{"o": k, "v": v, "lim": limit(n, k)} for k in ("print", "str", "hash")]
    if heavy:
        op = {"o": "chk", "v": heavy, "ck": None, "lim": setup[[o.get("d") for o in setup].index(heavy)]["lim"]}
        final.append(op)
        if r.random() < 0.5:
            r.choice(ths).append(dict(op))
    if renderable(terms[v][1]):
        final.append(dict(parse_op(g, r, lg, t=terms[v][1]), lim=limit(n, "parse")))
    if lg == "pl":
        final.append({"o": "eval", "v": v, "i": "i", "lim": limit(n, "eval")})
    if r.random() < 0.08:  # the bound does not grow with what happened before
        setup.insert(0, history(r, nm, what=["build"] + r.sample(["hash", "eq", "print"], 1), keep=True))
    if r.random() < 0.08:
        op = dict(one())
        op.pop("lim")
        op2 = dict(op)
        if op["o"] == "copy":
            op2["d"] = nm()
        if op["o"] != "badbuild":
            r.choice(ths).insert(0, burst(r, op2, {"inj": [int(r.expovariate(1 / 60.0)) + 1, r.choice(ABORTS)]} if r.random() < 0.85 else {"stack": r.choice([5, 10, 20, 40, 80])}))
    ph = phase(r, setup, ths, final, p_opcode=0.0)
    ph["quiet_final"] = False
    return {"phases": [ph]}


# ----------------------------------------------------------------------------------------------- C12


def c12(r, tier):
    """The same single-threaded program in three interpreters, the later ones with other work before it."""
    from sim import ndspec

    nm = Names()
    g = gen.Gen(r, natoms=r.randint(2, 5), odd=0.15)
    setup, pool = [], []
    ops = [{"o": "reset"}]
    terms = {}
    prf = []
    cks = []
    for _ in range(r.randint(6, 14)):
        x = r.random()
        if x < 0.4 or not pool:
            lg = g.any_logic()
            t = g.term(lg, r.randint(0, 4), rshift=True) if r.random() < 0.8 else g.wide(lg, r.randint(5, r.choice([14, 14, 40])))
            d = nm()
            ops.append(build_op(g, r, lg, t=t, d=d) if not renderable(t) or r.random() < 0.5 else parse_op(g, r, lg, t=t, d=d))
            pool.append((d, lg))
            terms[d] = t
        elif x < 0.7:
            op, lg = comb_op(g, r, pool, nm())
            ops.append(op)
            pool.append((op["d"], lg))
            ops.append({"o": "print", "v": op["d"]})
        elif x < 0.76:
            v, lg = r.choice(pool)
            ops.append({"o": "eq", "a": v, "b": r.choice([p for p in pool if p[1] == lg])[0]})
        elif x < 0.82:
            pls = [v for v, l in pool if l == "pl"]
            if pls:
                d = nm("i")
                ops.append({"o": "mkint", "kind": r.choice(["set", "dict"]), "spec": [], "d": d})
                syms = gen.ATOMS
                ops[-1]["spec"] = [s for s in syms if r.random() < 0.5] if ops[-1]["kind"] == "set" else {s: r.random() < 0.5 for s in syms}
                ops.append({"o": "eval", "v": r.choice(pls), "i": d})
        elif x < 0.88:
            ps = ndspec.add_proofs(r, ops, nm, 1)
            ops.append({"o": "chk", "v": ps[0], "ck": None})
        elif x < 0.92:
            ops.append({"o": "mkset", "vs": [r.choice(pool)[0] for _ in range(3)], "d": nm("s")})
        elif x < 0.95:
            v, lg = r.choice(pool)
            ops.append({"o": "copy", "v": v, "how": r.choice(["copy", "deep", "pickle"]), "proto": r.randint(0, 5), "d": nm()})
        elif x < 0.975:
            ops.append({"o": "reset"})
        else:
            ops.append(bad_op(g, r))
    for v, lg in pool:
        ops.append({"o": "print", "v": v})
        if lg != "ldl":
            ops.append({"o": "str", "v": v})
    ops.append({"o": "ctxlist"})
    phases = []
    for v, lg in r.sample(pool, min(2, len(pool))):  # the strings before the end, too
        if lg != "ldl":
            ops.insert(max(i for i, op in enumerate(ops) if op.get("d") == v) + 1, {"o": "str", "v": v})
    for k in range(3):
        pre = []
        if k:
            gg = gen.Gen(r, natoms=r.randint(2, 5))
            for j in range(r.randint(0, 6)):  # close relatives of what the program will use
                w = r.choice([x for x in pool if x[0] in terms])
                t = gg.variant(terms[w[0]], w[1])
                if r.random() < 0.6:
                    t = gg.shuffled(terms[w[0]], 1)
                d = f"kin{j}"
                pre.append(build_op(gg, r, w[1], t=t, d=d) if not renderable(t) or r.random() < 0.5 else parse_op(gg, r, w[1], t=t, d=d))
                for o in r.sample(["str", "print", "hash", "eq", "copy"], r.randint(0, 3)):
                    pre.append({"o": "eq", "a": d, "b": d} if o == "eq" else {"o": "copy", "v": d, "how": "deep", "proto": 2, "d": d + "c"} if o == "copy" else {"o": o, "v": d})
            for j in range(r.randint(0, 12)):
                y = r.random()
                op = parse_op(gg, r) if y < 0.4 else build_op(gg, r, d=f"pre{j}") if y < 0.8 else bad_op(gg, r) if y < 0.9 else {"o": "reset"}
                if r.random() < 0.2:
                    op["f"] = {"stack": r.choice([5, 10, 20])}
                pre.append(op)
            if r.random() < 0.08:
                pre.insert(r.randint(0, len(pre)), history(r, nm, what=["build"] + r.sample(["hash", "eq", "print", "copy"], 1)))
        phases.append({"gran": "line", "policy": {"kind": "explicit", "schedule": []}, "setup": pre, "threads": [ops], "final": [], "qt": True})
    s = r.sample(range(NSALT), 3)
    return {"salts": s, "answers": True, "compare": True, "phases": phases}


# ----------------------------------------------------------------------------------------------- C09, C13, C14 (bare interpreters)


def bare(name):
    def f(r, tier):
        from sim import bareplans

        return getattr(bareplans, name)(r, tier)

    return f


MAKERS = {
    "C01": c01,
    "C02": c02,
    "C03": c03,
    "C04": c04,
    "C05": c05,
    "C06": c06,
    "C07": c07,
    "C08": c08,
    "C09": bare("c09"),
    "C10": c10,
    "C11": c11,
    "C12": c12,
    "C13": bare("c13"),
    "C14": bare("c14"),
}
