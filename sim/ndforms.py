"""Natural-deduction proofs as plain data: generation of correct derivations, corruption.

formula : ["P", name, [terms]] | ["pa", name] | ["bot"] | ["not", f] | ["and", f, g] | ["or", f, g] | ["all", x, f] | ["ex", x, f]
          | ["imp", f, g] | ["iff", f, g]
          (an implication is ["imp", f, g] or ["or", neg(f), g], as the library defines `>>`)
term    : ["v", name] | ["c", name] | ["f", name, [terms]]
line    : {"row": n, "f": formula, "j": [rule, ref, ...]} | {"row": n, "box": [lines], "t": term or None}
"""


# ----------------------------------------------------------------------------- formulas
def neg(f):
    return f[1] if f[0] == "not" else ["not", f]


def canon(f):
    """Equal exactly for formulas the library may regard as equal."""
    if f[0] in ("P", "pa", "bot"):
        return repr(f)
    if f[0] in ("and", "or", "iff"):
        return (f[0], frozenset(canon(x) for x in f[1:]))
    return (f[0],) + tuple(repr(x) if x[0] in ("v", "c", "f") else canon(x) for x in f[1:])


def apart(f, g):
    """Building a conjunction or disjunction of the two merges nothing."""
    return canon(f) != canon(g) and canon(f) != canon(neg(g)) and canon(neg(f)) != canon(g)


def orable(f, g):
    return f[0] not in ("bot", "or") and g[0] not in ("bot", "or") and apart(f, g)


def andable(f, g):
    return f[0] not in ("bot", "and") and g[0] not in ("bot", "and") and apart(f, g)


def impable(f, g):
    return f[0] != "bot" and orable(neg(f), g)


def imp(f, g):
    return ["or", neg(f), g]


def isimp(f):
    """(phi, psi) if f is phi -> psi, in either form."""
    if f[0] == "imp":
        return f[1], f[2]
    if f[0] == "or" and f[1] != ["bot"] and impable(neg(f[1]), f[2]):
        return neg(f[1]), f[2]
    return None


def terms_in(f):
    """Terms occurring in a formula outside binders' own variable, outermost first; bound ones excluded."""
    out = []

    def t(x, bound):
        if x[0] == "v" and x[1] in bound:
            return True
        b = False
        if x[0] == "f":
            for y in x[2]:
                b = t(y, bound) or b
        if not b and x not in out:
            out.append(x)
        return b

    def go(f, bound):
        if f[0] == "P":
            for x in f[2]:
                t(x, bound)
        elif f[0] in ("all", "ex"):
            go(f[2], bound | {f[1][1]})
        elif f[0] not in ("pa", "bot"):
            for g in f[1:]:
                go(g, bound)

    go(f, frozenset())
    return out


def subst(f, old, new):
    """Replace every free occurrence of term `old`."""

    def t(x):
        if x == old:
            return new
        if x[0] == "f":
            return ["f", x[1], [t(y) for y in x[2]]]
        return x

    if f[0] == "P":
        return ["P", f[1], [t(x) for x in f[2]]]
    if f[0] in ("pa", "bot"):
        return f
    if f[0] in ("all", "ex"):
        return f if f[1] == old else [f[0], f[1], subst(f[2], old, new)]
    return [f[0]] + [subst(g, old, new) for g in f[1:]]


def fsize(f):
    return 1 + sum(fsize(x) for x in f[1:] if isinstance(x, list) and x and isinstance(x[0], str) and x[0] not in ("v", "c", "f"))


# ----------------------------------------------------------------------------- generation
class NDGen:
    def __init__(self, rng, first_order, maxrow=40):
        self.rng = rng
        self.fo = first_order
        self.row = 0
        self.nv = 0
        self.maxrow = maxrow
        self.rule = None
        self.consts = [["c", "a"], ["c", "b"]]

    def next_row(self):
        self.row += 1 + (self.rng.random() < 0.05)
        return self.row

    def fresh_var(self):
        self.nv += 1
        return ["v", f"x{self.nv}"]

    def term(self, extra=()):
        r = self.rng
        pool = self.consts + list(extra)
        x = r.choice(pool)
        if r.random() < 0.25:
            return ["f", "g", [x]]
        return x

    def atom(self, extra=()):
        r = self.rng
        if not self.fo or r.random() < 0.2:
            if not self.fo and r.random() < 0.7:
                return ["pa", r.choice("pqrs")]
            return ["P", r.choice("uvwt"), []]
        n = r.choice([1, 1, 2])
        return ["P", "PQR"[n] + r.choice("12"), [self.term(extra) for _ in range(n)]]

    def formula(self, d=2, extra=()):
        r = self.rng
        if d == 0 or r.random() < 0.25:
            return self.atom(extra)
        k = r.choice(["not", "and", "or", "imp", r.choice(["imp", "iff"])] + (["all", "ex"] if self.fo else []))
        if k == "not":
            return neg(self.formula(d - 1, extra))
        if k in ("all", "ex"):
            x = self.fresh_var()
            return [k, x, self.formula(d - 1, tuple(extra) + (x,) * 3)]
        for _ in range(5):
            f, g = self.formula(d - 1, extra), self.formula(d - 1, extra)
            if k == "imp" and impable(f, g):
                return self.imp(f, g)
            if k == "iff" and apart(f, g) and "bot" not in (f[0], g[0]):
                return ["iff", f, g]
            if k == "and" and andable(f, g):
                return ["and", f, g]
            if k == "or" and orable(f, g):
                return ["or", f, g]
        return self.atom(extra)

    def imp(self, f, g):
        return imp(f, g) if self.rng.random() < 0.5 else ["imp", f, g]

    def premises(self, n):
        r = self.rng
        out = []
        for _ in range(n):
            f = self.formula(2)
            x = r.random()
            ns = [h[1] for h in out if h[0] == "not"]
            if x < 0.12 and ns and f[0] not in ("not", "bot") and impable(f, ns[0]):
                f = self.imp(f, ns[0])
            elif x < 0.3 and out:
                g = r.choice(out)
                if impable(g, f):
                    f = self.imp(g, f)
            elif x < 0.45 and out:
                f = neg(r.choice(out))
            elif x < 0.6:
                a, b = self.formula(1), self.formula(1)
                if orable(a, b):
                    f = ["or", a, b]
            if f[0] != "bot":
                out.append(f)
        return out

    def proof(self):
        r = self.rng
        lines = []
        avail = []
        for f in self.premises(r.randint(1, 4)):
            ln = {"row": self.next_row(), "f": f, "j": ["premise"]}
            lines.append(ln)
            avail.append(ln)
        self.block(lines, avail, r.randint(2, 9), 0)
        return lines

    RULES = ["and_i", "and_e1", "and_e2", "or_i1", "or_i2", "copy", "dneg_i", "dneg_e", "impl_e", "MT", "neg_e", "bot_e", "impl_i", "neg_i", "or_e"]
    FO_RULES = ["forall_e", "forall_i", "exists_i", "exists_e"]

    def feed(self, k):
        """Premises that the rule can be applied to."""
        for _ in range(20):
            a, b = self.formula(self.rng.randint(0, 1)), self.formula(self.rng.randint(0, 1))
            x = self.fresh_var()
            if k in ("and_e1", "and_e2") and andable(a, b):
                return [["and", a, b]]
            if k == "impl_e" and impable(a, b):
                return [a, self.imp(a, b)]
            if k == "MT" and a[0] != "not" and b[0] != "not" and impable(a, b):
                return [self.imp(a, b), neg(b)]
            if k in ("neg_e", "bot_e", "neg_i"):
                return [a, neg(a)]
            if k == "or_e" and orable(a, b):
                return [["or", a, b]]
            if k in ("forall_e", "forall_i", "exists_e"):
                f = self.formula(self.rng.randint(0, 2), (x,) * 4)
                return [["ex" if k == "exists_e" else "all", x, f]]
            if k in ("copy", "and_i", "or_i1", "or_i2", "dneg_i", "dneg_e", "impl_i", "exists_i"):
                return [a, b]
        return [a]

    def unit(self):
        """A short proof about one rule."""
        r = self.rng
        lines, avail = [], []
        k = self.rule = r.choice(self.RULES + ["or_e", "impl_i", "neg_i", "MT"] + (self.FO_RULES * 2 if self.fo else []))
        fs = self.feed(k)
        if r.random() < 0.3:
            fs.insert(r.randint(0, len(fs)), self.formula(1))
        if r.random() < 0.2:
            r.shuffle(fs)
        for f in fs:
            ln = {"row": self.next_row(), "f": f, "j": ["premise"]}
            lines.append(ln)
            avail.append(ln)
        self.block(lines, avail, r.choice([0, 0, 1]), 0)
        for _ in range(8):
            if k == "bot_e":
                got = self.r_neg_e([x for x in avail if "f" in x], avail, 0)
                if got:
                    lines.append(got)
                    avail.append(got)
            got = getattr(self, "r_" + k)([x for x in avail if "f" in x], avail, 0)
            if got is not None:
                got = got if isinstance(got, list) else [got]
                lines += got
                avail += got
                break
        self.block(lines, avail, r.choice([0, 0, 1, 2]), 0)
        return lines

    def block(self, lines, avail, n, depth, goal=None):
        """Append n derived lines. avail: lines in scope."""
        for _ in range(n):
            if self.row > self.maxrow:
                return
            ln = self.step(avail, depth)
            if ln is not None:
                for x in ln if isinstance(ln, list) else [ln]:
                    lines.append(x)
                    avail.append(x)

    def step(self, avail, depth):
        r = self.rng
        for _ in range(12):
            k = r.choice(
                ["and_i", "and_e1", "and_e2", "or_i1", "or_i2", "copy", "dneg_i", "dneg_e", "impl_e", "MT", "neg_e", "bot_e", "impl_i", "neg_i", "or_e"]
                + (["forall_e", "forall_e", "forall_i", "exists_i", "exists_e"] if self.fo else [])
            )
            ln = getattr(self, "r_" + k)([x for x in avail if "f" in x], avail, depth)
            if ln is not None:
                return ln
        return None

    def ln(self, f, *j):
        if fsize(f) > 14:
            return None
        return {"row": self.next_row(), "f": f, "j": list(j)}

    def r_and_i(self, fs, avail, d):
        a, b = self.rng.choice(fs), self.rng.choice(fs)
        return self.ln(["and", a["f"], b["f"]], "and_i", a["row"], b["row"]) if andable(a["f"], b["f"]) else None

    def r_and_e1(self, fs, avail, d, i=1):
        c = [x for x in fs if x["f"][0] == "and"]
        if not c:
            return None
        a = self.rng.choice(c)
        return self.ln(a["f"][i], "and_e" + str(i), a["row"])

    def r_and_e2(self, fs, avail, d):
        return self.r_and_e1(fs, avail, d, 2)

    def r_or_i1(self, fs, avail, d, i=1):
        a = self.rng.choice(fs)
        g = self.formula(1)
        p = (a["f"], g) if i == 1 else (g, a["f"])
        return self.ln(["or", *p], "or_i" + str(i), a["row"]) if orable(*p) else None

    def r_or_i2(self, fs, avail, d):
        return self.r_or_i1(fs, avail, d, 2)

    def r_copy(self, fs, avail, d):
        a = self.rng.choice(fs)
        return self.ln(a["f"], "copy", a["row"])

    def r_dneg_i(self, fs, avail, d):
        a = self.rng.choice(fs)
        return self.ln(a["f"], "dneg_i", a["row"])

    def r_dneg_e(self, fs, avail, d):
        a = self.rng.choice(fs)
        return self.ln(a["f"], "dneg_e", a["row"])

    def r_impl_e(self, fs, avail, d):
        c = [(a, b, isimp(b["f"])[1]) for a in fs for b in fs if isimp(b["f"]) and isimp(b["f"])[0] == a["f"]]
        if not c:
            return None
        a, b, f = self.rng.choice(c)
        return self.ln(f, "impl_e", a["row"], b["row"])

    def r_MT(self, fs, avail, d):
        c = [(a, b, isimp(a["f"])[0]) for a in fs for b in fs if b["f"][0] == "not" and isimp(a["f"]) and isimp(a["f"])[1] == b["f"][1] and isimp(a["f"])[0][0] not in ("not", "bot")]
        if not c:
            return None
        a, b, f = self.rng.choice(c)
        return self.ln(neg(f), "MT", a["row"], b["row"])

    def r_neg_e(self, fs, avail, d):
        c = [(a, b) for a in fs for b in fs if a["f"][0] != "bot" and b["f"] == neg(a["f"])]
        if not c:
            return None
        a, b = self.rng.choice(c)
        return self.ln(["bot"], "neg_e", a["row"], b["row"])

    def r_bot_e(self, fs, avail, d):
        c = [x for x in fs if x["f"] == ["bot"]]
        if not c:
            return None
        return self.ln(self.formula(1), "bot_e", self.rng.choice(c)["row"])

    def box(self, assume, avail, depth, want=None, n=None, term=None):
        """A box from `assume`, ending in `want` if given (derivable by copy/bot), else anything."""
        row = self.next_row()
        first = {"row": row, "f": assume, "j": ["assumption"]}
        lines = [first]
        inner = avail + [first]
        self.block(lines, inner, self.rng.randint(0, 3) if n is None else n, depth + 1)
        return row, lines, inner

    def can_close(self, lines):
        return "f" in lines[-1]

    def r_impl_i(self, fs, avail, d):
        if d >= 2:
            return None
        a = self.formula(1)
        if a[0] == "bot":
            return None
        row, lines, inner = self.box(a, avail, d)
        if not self.can_close(lines):
            return None
        g = lines[-1]["f"]
        if not impable(a, g):
            return None
        return [{"row": row, "box": lines, "t": None}, {"row": self.next_row(), "f": self.imp(a, g), "j": ["impl_i", row]}]

    def r_neg_i(self, fs, avail, d):
        if d >= 2:
            return None
        c = [x["f"] for x in fs if x["f"][0] != "bot"]
        a = neg(self.rng.choice(c))
        row, lines, inner = self.box(a, avail, d, n=self.rng.randint(0, 1))
        c = [(x, y) for x in inner for y in inner if "f" in x and "f" in y and x["f"][0] != "bot" and y["f"] == neg(x["f"])]
        if not c:
            return None
        x, y = self.rng.choice(c)
        lines.append(self.ln(["bot"], "neg_e", x["row"], y["row"]))
        if a[0] == "bot":
            return None
        return [{"row": row, "box": lines, "t": None}, {"row": self.next_row(), "f": neg(a), "j": ["neg_i", row]}]

    def r_or_e(self, fs, avail, d):
        c = [x for x in fs if x["f"][0] == "or"]
        if not c or d >= 2:
            return None
        o = self.rng.choice(c)
        boxes = []
        mode = self.rng.random()
        goal = self.rng.choice(fs) if mode < 0.5 else None
        if goal is None:
            g = self.formula(1)
            goal_f = ["or", g, g]
            # A ⊢ B∨A by or_i: conclude the swapped disjunction, a different formula line by line
            goal_f = ["or", o["f"][2], o["f"][1]]
            if not orable(o["f"][1], o["f"][2]):
                return None
        for i in (1, 2):
            row = self.next_row()
            lines = [{"row": row, "f": o["f"][i], "j": ["assumption"]}]
            inner = avail + lines[:]
            self.block(lines, inner, self.rng.randint(0, 2), d + 1)
            if goal is not None:
                lines.append({"row": self.next_row(), "f": goal["f"], "j": ["copy", goal["row"]]})
            else:
                lines.append({"row": self.next_row(), "f": goal_f, "j": ["or_i" + ("2" if i == 1 else "1"), row]})
            boxes.append({"row": row, "box": lines, "t": None})
        f = goal["f"] if goal is not None else goal_f
        return boxes + [{"row": self.next_row(), "f": f, "j": ["or_e", o["row"], boxes[0]["row"], boxes[1]["row"]]}]

    def r_forall_e(self, fs, avail, d):
        c = [x for x in fs if x["f"][0] == "all"]
        if not c:
            return None
        a = self.rng.choice(c)
        free = [t for x in fs for t in terms_in(x["f"]) if t[0] == "v"]
        t = self.term(free)
        if self.captures(a["f"][2], t):
            return None
        return self.ln(subst(a["f"][2], a["f"][1], t), "forall_e", a["row"])

    def captures(self, f, t):
        names = set()

        def tv(x):
            if x[0] == "v":
                names.add(x[1])
            elif x[0] == "f":
                for y in x[2]:
                    tv(y)

        tv(t)

        def go(f):
            if f[0] in ("all", "ex"):
                return f[1][1] in names or go(f[2])
            if f[0] in ("P", "pa", "bot"):
                return False
            return any(go(g) for g in f[1:])

        return go(f)

    def r_forall_i(self, fs, avail, d):
        if d >= 2:
            return None
        c = [x for x in fs if x["f"][0] == "all"]
        y = self.fresh_var()
        row = self.next_row()
        lines = []
        if c:
            a = self.rng.choice(c)
            first = {"row": self.next_row(), "f": subst(a["f"][2], a["f"][1], y), "j": ["forall_e", a["row"]]}
            lines.append(first)
        else:
            a = self.rng.choice(fs)
            lines.append({"row": self.next_row(), "f": a["f"], "j": ["copy", a["row"]]})
        inner = avail + lines[:]
        self.block(lines, inner, self.rng.randint(0, 2), d + 1)
        if not self.can_close(lines):
            return None
        g = lines[-1]["f"]
        if g[0] == "bot":
            return None
        x = self.fresh_var()
        # the term line takes the box's row; the first formula line has its own
        return [
            {"row": row, "box": lines, "t": y, "tsep": True},
            {"row": self.next_row(), "f": ["all", x, subst(g, y, x)], "j": ["forall_i", row]},
        ]

    def r_exists_i(self, fs, avail, d):
        a = self.rng.choice(fs)
        ts = terms_in(a["f"])
        x = self.fresh_var()
        if not ts:
            return None
        t = self.rng.choice(ts)
        return self.ln(["ex", x, subst(a["f"], t, x)], "exists_i", a["row"])

    def r_exists_e(self, fs, avail, d):
        c = [x for x in fs if x["f"][0] == "ex"]
        if not c or d >= 2:
            return None
        e = self.rng.choice(c)
        y = self.fresh_var()
        row = self.next_row()
        first = {"row": row, "f": subst(e["f"][2], e["f"][1], y), "j": ["assumption"]}
        lines = [first]
        inner = avail + lines[:]
        self.block(lines, inner, self.rng.randint(0, 2), d + 1)
        good = [x for x in lines if "f" in x and y not in terms_in(x["f"]) and not any(y in self.sub_terms(t) for t in terms_in(x["f"]))]
        if good and self.rng.random() < 0.6:
            g = self.rng.choice(good)
            if g is not lines[-1] or g is first:
                lines.append({"row": self.next_row(), "f": g["f"], "j": ["copy", g["row"]]})
            f = g["f"]
        else:
            x = self.fresh_var()
            f = ["ex", x, subst(first["f"], y, x)]
            lines.append({"row": self.next_row(), "f": f, "j": ["exists_i", row]})
        return [{"row": row, "box": lines, "t": y}, {"row": self.next_row(), "f": f, "j": ["exists_e", e["row"], row]}]

    def sub_terms(self, t):
        out = [t]
        if t[0] == "f":
            for x in t[2]:
                out += self.sub_terms(x)
        return out


# ----------------------------------------------------------------------------- quantifiers, reused variables
def quant(rng):
    """A short proof about one quantifier step over formulas that reuse and nest variables; right or wrong (ask ndref)."""
    r = rng
    names = ["x", "y", "z", "x1"]
    vs = [["v", n] for n in names]
    cs = [["c", "a"], ["c", "b"]]

    def term(pool, d=0):
        k = r.random()
        if d < 2 and k < 0.25:
            return ["f", r.choice("gh"), [term(pool, d + 1) for _ in range(r.choice([1, 1, 2]))]]
        return r.choice(pool)

    def body(d, pool):
        k = r.random()
        if d == 0 or k < 0.15:
            n = r.choice([0, 1, 1, 2, 2, 3])
            return ["P", "PQRS"[n] + r.choice("12"), [term(pool) for _ in range(n)]]
        if k < 0.3:
            return neg(body(d - 1, pool))
        if k < 0.62:
            w = r.choice(vs)
            return [r.choice(["all", "ex"]), w, body(d - 1, pool + [w, w])]
        for _ in range(6):
            f, g = body(d - 1, pool), body(d - 1, pool)
            j = r.choice(["and", "or", "imp", "iff"])
            if j == "imp" and impable(f, g):
                return imp(f, g) if r.random() < 0.4 else ["imp", f, g]
            if j == "iff" and apart(f, g):
                return ["iff", f, g]
            if j == "and" and andable(f, g):
                return ["and", f, g]
            if j == "or" and orable(f, g):
                return ["or", f, g]
        return f

    x = r.choice(vs)
    b = body(r.choice([1, 2, 2, 3]), [x] * 4 + r.sample(cs + vs, 2))
    t = term(vs * 2 + cs)
    k = r.choice(["forall_e", "exists_i", "forall_e", "exists_i", "forall_i", "exists_e", "chain"])
    inst = subst(b, x, t)
    extra = [["P", "W", []]] if r.random() < 0.3 else []
    rows = iter(range(1, 40))
    lines = [{"row": next(rows), "f": f, "j": ["premise"]} for f in extra]

    def add(ls, f, *j):
        ls.append({"row": next(rows), "f": f, "j": list(j)})
        return ls[-1]["row"]

    if k == "forall_e":
        add(lines, inst, "forall_e", add(lines, ["all", x, b], "premise"))
    elif k == "exists_i":
        add(lines, ["ex", x, b], "exists_i", add(lines, inst, "premise"))
    elif k == "chain":
        q = add(lines, ["all", x, b], "premise")
        add(lines, ["ex", x, b], "exists_i", add(lines, inst, "forall_e", q))
    elif k == "forall_i":
        y = r.choice(vs + cs[:1])
        if r.random() < 0.5:
            y = ["v", "u"]
        q = add(lines, ["all", x, b], "premise")
        row = next(rows)
        box = []
        add(box, subst(b, x, y), "forall_e", q)
        lines.append({"row": row, "box": box, "t": y, "tsep": True})
        w = r.choice(vs)
        g = subst(box[-1]["f"], y, w)
        if r.random() < 0.4:  # only some occurrences
            g = box[-1]["f"]
            for p in subs(g):
                if r.random() < 0.5:
                    g = put(g, p, subst(at(g, p), y, w)) if not free_under(g, p, y) else g
        add(lines, ["all", w, g], "forall_i", row)
    else:
        y = ["v", "u"] if r.random() < 0.6 else r.choice(vs)
        q = add(lines, ["ex", x, b], "premise")
        box = []
        row = add(box, subst(b, x, y), "assumption")
        w = r.choice(vs)
        g = ["ex", w, subst(box[0]["f"], y, w)]
        if r.random() < 0.3:
            g = ["ex", w, box[0]["f"]]
        k = r.random()
        if k < 0.25:  # a box that says nothing but its assumption
            g = box[0]["f"]
            if k < 0.1:
                add(box, g, "copy", row)
        else:
            add(box, g, "exists_i", row)
        lines.append({"row": row, "box": box, "t": y})
        add(lines, g, "exists_e", q, row)
    return lines


def large(rng):
    """A right proof with deep formulas, deep terms, deeply nested boxes or many lines."""
    r = rng
    rows = iter(range(1, 400))
    lines = []

    def add(ls, f, *j):
        ls.append({"row": next(rows), "f": f, "j": list(j)})
        return ls[-1]["row"]

    x, y, u, a = ["v", "x"], ["v", "y"], ["v", "u"], ["c", "a"]
    n = iter(range(1000))

    def deep(d, t):
        """A formula of the given depth over the term."""
        f = ["P", f"P{next(n)}", [t]]
        kinds = r.choice([["and", "or"], ["and", "imp"], ["or", "imp"], ["or", "and", "imp"], ["not", "and"], ["all", "or"], ["ex", "not", "and"], ["all", "ex"], ["imp"]])
        left = r.random()
        for i in range(d):
            k = kinds[i % len(kinds)]
            if k == "not":
                f = neg(f)
            elif k in ("all", "ex"):
                f = [k, ["v", f"z{next(n)}"], f]
            else:
                g = ["P", f"P{next(n)}", [t if r.random() < 0.5 else y]]
                f = [k, f, g] if r.random() < left and k != "imp" else [k, g, f]
        return f

    def nested(d, t):
        for _ in range(d):
            t = ["f", "g", [t] if r.random() < 0.7 else r.choice([[t, y], [y, t]])]
        return t

    k = r.choice(["all_e", "ex_i", "all_i", "ex_e", "copy", "boxes", "lines", "terms", "all_e", "ex_i"])
    d = r.choice([8, 12, 18, 24, 24, 27, 30])
    if k == "terms":
        f = ["P", "Q", [nested(d, x)] + ([x] if r.random() < 0.5 else [])]
        k = r.choice(["all_e", "ex_i", "all_i"])
    else:
        f = deep(d, x)
    if k == "all_e":
        add(lines, subst(f, x, a) if r.random() < 0.7 else f, "forall_e", add(lines, ["all", x, f], "premise"))
    elif k == "ex_i":
        add(lines, ["ex", x, f], "exists_i", add(lines, subst(f, x, a), "premise"))
    elif k == "all_i":
        q = add(lines, ["all", x, f], "premise")
        row, box = next(rows), []
        add(box, subst(f, x, u), "forall_e", q)
        lines.append({"row": row, "box": box, "t": u, "tsep": True})
        w = ["v", "w"]
        add(lines, ["all", w, subst(f, x, w)], "forall_i", row)
    elif k == "ex_e":
        q = add(lines, ["ex", x, f], "premise")
        box = []
        row = add(box, subst(f, x, u), "assumption")
        w = ["v", "w"]
        g = ["ex", w, subst(f, x, w)]
        add(box, g, "exists_i", row)
        lines.append({"row": row, "box": box, "t": u})
        add(lines, g, "exists_e", q, row)
    elif k == "copy":
        q = add(lines, f, "premise")
        q = add(lines, f, "copy", q)
        if f[0] != "not":
            q = add(lines, neg(f), "premise")
            add(lines, ["bot"], "neg_e", lines[0]["row"], q)
        else:
            add(lines, f, "copy", q)
    elif k == "boxes":
        def inside(d, ls):
            box = []
            g = ["P", f"P{next(n)}", [y]]
            row = add(box, g, "assumption")
            if d > 1:
                inside(d - 1, box)
            add(box, g, "copy", row)
            ls.append({"row": row, "box": box, "t": None})

        inside(min(d, 24), lines)
        add(lines, ["P", "Q", []], "premise")
    else:
        q = add(lines, ["P", "P0", [x, y]], "premise")
        for i in range(d * 2):
            q = add(lines, ["P", "P0", [x, y]], "copy", r.choice([q, 1]))
    return lines


def measure(lines):
    """The written size of a proof."""
    def of(f):
        return 1 + sum(of(g) for g in f[1:] if isinstance(g, list)) if f and f[0] != "P" else 1 + sum(of_t(t) for t in f[2])

    def of_t(t):
        return 1 + sum(of_t(s) for s in t[2]) if t[0] == "f" else 1

    return sum(1 + (measure(ln["box"]) if "box" in ln else of(ln["f"])) for ln in lines)


def free_under(f, path, y):
    """Is y bound somewhere above the place?"""
    for i in path:
        if f[0] in ("all", "ex") and f[1] == y:
            return True
        f = f[i]
    return False


# ----------------------------------------------------------------------------- corruption
DETERMINED = {"and_e1", "and_e2", "and_i", "copy", "dneg_i", "dneg_e", "impl_e", "MT", "neg_e", "impl_i", "neg_i", "or_e", "exists_e", "forall_e",
              "forall_i", "exists_i", "or_i1", "or_i2"}


def all_lines(lines, scope=()):
    """(line, scope rows visible before it, path) in order."""
    vis = list(scope)
    for ln in lines:
        if "box" in ln:
            if ln.get("tsep"):
                yield from all_lines(ln["box"], vis)
            else:
                yield from all_lines(ln["box"], vis)
        else:
            yield ln, list(vis)
        vis.append(ln["row"])


def boxes_of(lines, scope=()):
    """(list holding the box, its index, formulas visible before it)"""
    vis = list(scope)
    for i, ln in enumerate(lines):
        if "box" in ln:
            yield lines, i, list(vis)
            yield from boxes_of(ln["box"], vis)
        else:
            vis.append(ln["f"])


def special(p, kind, rng):
    g = NDGen(rng, True)
    if kind == "wrongref":
        ls = list(all_lines(p))
        by = {x["row"]: x for x, _ in ls}
        c = []
        for ln, vis in ls:
            if ln["j"][0] in ("copy", "dneg_i", "dneg_e"):
                for r in vis:
                    if r in by and canon(by[r]["f"]) != canon(ln["f"]):
                        c.append((ln, r))
        if not c:
            return None
        ln, r = rng.choice(c)
        ln["j"][1] = r
        return p, kind
    if kind == "swap":
        c = [ln for ln, _ in all_lines(p) if ln["j"][0] in ("and_e1", "and_e2")]
        if not c:
            return None
        ln = rng.choice(c)
        ln["j"][0] = "and_e2" if ln["j"][0] == "and_e1" else "and_e1"
        return p, kind
    if kind == "mixed":
        top = max(x["row"] for x, _ in all_lines(p)) + 1000
        x = g.fresh_var()
        a, b = ["c", "a"], ["c", "b"]
        body = ["P", "R1", [x, x]] if rng.random() < 0.5 else ["and", ["P", "Q1", [x]], ["P", "Q2", [["f", "g", [x]]]]]
        if rng.random() < 0.5:
            p.append({"row": top, "f": ["all", x, body], "j": ["premise"]})
            w = subst(body, x, a)
            w = ["P", "R1", [a, b]] if w[0] == "P" else ["and", w[1], ["P", "Q2", [["f", "g", [b]]]]]
            p.append({"row": top + 1, "f": w, "j": ["forall_e", top]})
        else:
            w = ["P", "R1", [a, b]] if body[0] == "P" else ["and", ["P", "Q1", [a]], ["P", "Q2", [["f", "g", [b]]]]]
            p.append({"row": top, "f": w, "j": ["premise"]})
            p.append({"row": top + 1, "f": ["ex", x, body], "j": ["exists_i", top]})
        return p, kind
    if kind == "escape":
        c = [(ls, i) for ls, i, _ in boxes_of(p) if ls[i]["t"] is not None and i + 1 < len(ls) and "j" in ls[i + 1] and ls[i + 1]["j"][0] == "exists_e"]
        c = [(ls, i) for ls, i in c if ls[i]["t"] in terms_in(ls[i]["box"][0]["f"])]
        if not c:
            return None
        ls, i = rng.choice(c)
        box = ls[i]["box"]
        row = max(x["row"] for x, _ in all_lines(p)) + 500
        if rng.random() < 0.3:
            del box[1:]
        else:
            box.append({"row": row, "f": box[0]["f"], "j": ["copy", box[0]["row"]]})
        ls[i + 1]["f"] = box[0]["f"]
        del ls[i + 2 :]
        return p, kind
    c = []
    for ls, i, vis in boxes_of(p):
        if ls[i]["t"] is not None:
            ts = [t for f in vis for t in terms_in(f) if t[0] in ("v", "c")]
            if ts:
                c.append((ls[i], ts))
    if not c:
        return None
    ln, ts = rng.choice(c)
    t, y = rng.choice(ts), ln["t"]

    def redo(lines):
        for x in lines:
            if "box" in x:
                redo(x["box"])
            else:
                x["f"] = subst(x["f"], y, t)

    redo(ln["box"])
    ln["t"] = t
    return p, kind


def corrupt(proof, rng):
    """A copy of the proof with one certainly wrong step, or None. Returns (proof, kind)."""
    import copy as _c

    p = _c.deepcopy(proof)
    ls = [x for x in all_lines(p) if len(x[0]["j"]) > 1]
    if not ls:
        return None
    ln, vis = rng.choice(ls)
    rows = []

    def walk(lines):
        for x in lines:
            rows.append(x["row"])
            if "box" in x:
                walk(x["box"])

    walk(p)
    kind = rng.choice(["ghost", "later", "closed", "formula", "formula", "self", "parent", "wrongref", "swap", "mixed", "escape", "stale", "escape", "stale", "extra", "extra"])
    if kind in ("wrongref", "swap", "mixed", "escape", "stale"):
        return special(p, kind, rng)
    if kind == "extra":
        # one citation too many, of a line that is not there or not in scope
        ln, vis = rng.choice(list(all_lines(p)))
        ln["j"] = list(ln["j"])
        ln["j"].insert(rng.randint(1, len(ln["j"])), None)
        i = ln["j"].index(None)
        kind = rng.choice(["ghost", "later", "closed", "self"])
    else:
        i = rng.randrange(1, len(ln["j"]))
    if kind == "ghost":
        ln["j"][i] = max(rows) + rng.randint(1, 5)
    elif kind == "later":
        c = [x for x in rows if x > ln["row"]]
        if not c:
            return None
        ln["j"][i] = rng.choice(c)
    elif kind == "self":
        ln["j"][i] = ln["row"]
    elif kind == "closed":
        boxrows = set()

        def heads(lines):
            for x in lines:
                if "box" in x:
                    boxrows.add(x["row"])
                    heads(x["box"])

        heads(p)
        c = [x for x in set(rows) if x < ln["row"] and x not in vis and x not in boxrows]
        # rows of enclosing open boxes are in vis; the first line of an open box is too
        if not c:
            return None
        ln["j"][i] = rng.choice(sorted(c))
    elif kind == "formula":
        ln["f"] = ["P", "zz", []] if rng.random() < 0.5 else ["pa", "zz"]
        if ln["j"][0] not in DETERMINED:
            return None
    else:
        # state the negation of what the rule yields
        if ln["j"][0] not in DETERMINED or ln["j"][0] in ("or_i1", "or_i2", "exists_i", "forall_e"):
            return None
        ln["f"] = neg(ln["f"]) if ln["f"][0] != "bot" else ["pa", "zz"]
    return p, kind


# ----------------------------------------------------------------------------- arbitrary changes, to be judged by ndref
def blocks(lines):
    yield lines
    for ln in lines:
        if "box" in ln:
            yield from blocks(ln["box"])


def subs(f):
    """Paths to the subformulas."""
    out = [()]
    if f[0] not in ("P", "pa", "bot"):
        for i in range(2 if f[0] in ("all", "ex") else 1, len(f)):
            out += [(i,) + p for p in subs(f[i])]
    return out


def at(f, path):
    for i in path:
        f = f[i]
    return f


def put(f, path, g):
    if not path:
        return g
    f = list(f)
    f[path[0]] = put(f[path[0]], path[1:], g)
    return f


def edit(f, rng, pool):
    """f with a change somewhere."""
    path = rng.choice(subs(f))
    g = at(f, path)
    k = rng.random()
    other = ["pa", "q"] if "'pa'" in repr(f) else ["P", "zz", []]  # one logic per formula
    if k < 0.15:
        h = neg(g) if g[0] != "bot" else other
    elif k < 0.3 and g[0] in ("and", "or", "imp", "iff"):
        h = [g[0], g[2], g[1]] if rng.random() < 0.4 else [rng.choice([x for x in ("and", "or", "imp", "iff") if x != g[0]]), g[1], g[2]]
    elif k < 0.4 and g[0] in ("all", "ex"):
        h = ["ex" if g[0] == "all" else "all", g[1], g[2]]
    elif k < 0.5 and g[0] in ("and", "or", "not", "imp", "iff"):
        h = rng.choice(g[1:])
    elif k < 0.85 and g[0] == "P" and g[2]:
        ts = list(g[2])
        i = rng.randrange(len(ts))
        y = rng.random()
        every = [t for p in pool for t in terms_in(p)] or ts
        ts[i] = rng.choice(every) if y < 0.6 else ["f", "g", [ts[i]]] if y < 0.8 else ts[i][2][0] if ts[i][0] == "f" else ["c", "a"]
        if y > 0.95:
            ts.reverse()
        h = ["P", g[1], ts]
    elif k < 0.93:
        p = rng.choice(pool)
        h = at(p, rng.choice(subs(p)))
    else:
        h = ["P", g[1] + "1", g[2]] if g[0] == "P" else other
    return put(f, path, h)


def mutate(proof, rng):
    """A copy of the proof with one or two arbitrary changes."""
    import copy as _c

    p = _c.deepcopy(proof)
    for _ in range(rng.choice([1, 1, 1, 2])):
        ls = [ln for ln, _ in all_lines(p)]
        pool = [ln["f"] for ln in ls]
        rows = sorted({ln["row"] for b in blocks(p) for ln in b} | {ln["row"] for ln in ls})
        byrule = {}
        for ln in ls:
            byrule.setdefault(ln["j"][0], []).append(ln)
        ln = rng.choice(byrule[rng.choice(sorted(byrule))])
        k = rng.random()
        boxes = [x for b in blocks(p) for x in b if "box" in x]
        if k < 0.06 and ln["f"][0] in ("and", "or", "imp", "iff", "all", "ex"):
            f = ln["f"]
            ln["f"] = [rng.choice([x for x in (("all", "ex") if f[0] in ("all", "ex") else ("and", "or", "imp", "iff")) if x != f[0]])] + f[1:]
        elif k < 0.4:
            ln["f"] = edit(ln["f"], rng, pool)
        elif k < 0.5:
            ln["f"] = rng.choice(pool)
        elif k < 0.58 and len(ln["j"]) > 1:
            ln["j"] = [rng.choice(NDGen.RULES + NDGen.FO_RULES)] + list(ln["j"][1:])
        elif k < 0.75 and len(ln["j"]) > 1:
            j = list(ln["j"])
            y = rng.random()
            if y < 0.25 and len(j) > 2:  # the same line cited twice
                a, b = rng.sample(range(1, len(j)), 2)
                j[a] = j[b]
            elif y < 0.75:
                j[rng.randrange(1, len(j))] = rng.choice([r for r in rows if r < ln["row"]] or rows)
            elif y < 0.9:
                j = [j[0]] + j[:0:-1]
            else:
                j.pop()
            ln["j"] = j
        elif k < 0.85 and any(x["t"] for x in boxes):
            x = rng.choice([x for x in boxes if x["t"]])
            if x.get("tsep") and rng.random() < 0.4 and len(x["box"]) > 1:
                x["box"].pop()
            else:
                every = sorted({repr(t): t for f in pool for t in terms_in(f)}.items())
                t = rng.choice([t for _, t in every] or [["c", "a"]])
                if rng.random() < 0.5:
                    for y, _ in all_lines(x["box"]):
                        y["f"] = subst(y["f"], x["t"], t)
                x["t"] = t
        elif k < 0.93:  # a line disappears
            c = [(b, i) for b in blocks(p) for i, x in enumerate(b) if len(b) > 1 and not (i == 0 and b is not p)]
            if c:
                b, i = rng.choice(c)
                del b[i]
        else:  # a line moves
            c = [(b, i) for b in blocks(p) for i, x in enumerate(b) if len(b) > 1 and "f" in x and not (i == 0 and b is not p)]
            if c:
                b, i = rng.choice(c)
                x = b.pop(i)
                to = rng.choice(list(blocks(p)))
                to.insert(rng.randint(0 if to is p else 1, len(to)), x)
    return p


def focus(proof, rng, rule=None):
    """A copy with one change to a step, to what it cites, or to its rule; `rule`: preferably in a step by this rule."""
    import copy as _c

    from sim import ndref

    p = _c.deepcopy(proof)
    ls = [ln for ln, _ in all_lines(p)]
    scope = {id(ln): vis for ln, vis in all_lines(p)}
    c = [ln for ln in ls if ln["j"][0] == rule] or [ln for ln in ls if len(ln["j"]) > 1]
    if not c:
        return None
    ln = rng.choice(c)
    pool = [x["f"] for x in ls]
    by = {}
    for b in blocks(p):
        for x in b:
            by.setdefault(x["row"], x)  # a box and its first line share the row
    rows = sorted(r for r in by if r < ln["row"])
    near = sorted(set(scope[id(ln)])) if rng.random() < 0.8 else rows
    isbox = {r: "box" in by[r] and all(x is not ln for x, _ in all_lines(by[r]["box"])) for r in by}
    cited = [by[r] for r in ln["j"][1:] if r in by]
    boxes = [x for x in cited if "box" in x]
    n = len(ln["j"]) - 1
    k = rng.choice(["kind", "kind", "kind", "cite", "cite", "dup", "perm", "rule", "conclusion", "swap", "connective", "operand", "cited", "cited", "last", "last", "head", "head", "term", "outside"])
    if k == "kind":  # other citations, of a kind that may stand there
        for i in range(1, n + 1):
            c = [r for r in near if isbox[r] == isbox.get(ln["j"][i], False)]
            if c and rng.random() < 0.7:
                ln["j"][i] = rng.choice(c)
    elif k == "cite" and near:
        ln["j"][rng.randint(1, n)] = rng.choice(near)
    elif k == "dup" and n > 1:
        a, b = rng.sample(range(1, n + 1), 2)
        ln["j"][a] = ln["j"][b]
    elif k == "perm" and n > 1:
        refs = ln["j"][1:]
        rng.shuffle(refs)
        ln["j"] = [ln["j"][0]] + refs
    elif k == "rule":
        c = [x for x, m in ndref.ARITY.items() if m == n and x != ln["j"][0]]
        if not c:
            return None
        ln["j"][0] = rng.choice(c)
    elif k == "conclusion":
        ln["f"] = rng.choice(pool) if rng.random() < 0.6 else edit(ln["f"], rng, pool)
    elif k == "swap" and ln["f"][0] in ("and", "or", "imp", "iff"):
        ln["f"] = [ln["f"][0], ln["f"][2], ln["f"][1]]
    elif k == "connective" and ln["f"][0] in ("and", "or", "imp", "iff", "all", "ex"):
        f = ln["f"]
        ln["f"] = [rng.choice([x for x in (("all", "ex") if f[0] in ("all", "ex") else ("and", "or", "imp", "iff")) if x != f[0]])] + f[1:]
    elif k == "operand" and ln["f"][0] not in ("P", "pa", "bot"):
        ln["f"] = put(ln["f"], (rng.randint(2 if ln["f"][0] in ("all", "ex") else 1, len(ln["f"]) - 1),), rng.choice(pool))
    elif k == "cited" and cited:
        x = rng.choice(cited)
        if "f" not in x:
            return None
        x["f"] = edit(x["f"], rng, pool) if rng.random() < 0.7 else rng.choice(pool)
    elif k == "last" and boxes:  # the box ends otherwise
        b = rng.choice(boxes)["box"]
        x = rng.random()
        if x < 0.3 and len(b) > 1:
            b.pop()
        elif x < 0.6 and "f" in b[-1]:
            b[-1]["f"] = rng.choice(pool) if rng.random() < 0.5 else edit(b[-1]["f"], rng, pool)
        else:
            y = rng.choice([z for z in ls if z["row"] < ln["row"]])
            b.append({"row": ln["row"] * 1000 + 1, "f": y["f"], "j": ["copy", y["row"]]})
    elif k == "head" and boxes:  # the box starts otherwise
        b = rng.choice(boxes)["box"]
        if "f" not in b[0]:
            return None
        if rng.random() < 0.8:
            b[0]["f"] = rng.choice(pool) if rng.random() < 0.5 else edit(b[0]["f"], rng, pool)
        elif len(b) > 1:
            del b[0]
    elif k == "term" and any(x["t"] for x in boxes):
        x = rng.choice([x for x in boxes if x["t"]])
        every = sorted({repr(t): t for f in pool for t in terms_in(f)}.items())
        t = rng.choice([t for _, t in every] or [["c", "a"]])
        if rng.random() < 0.6:
            for y, _ in all_lines(x["box"]):
                y["f"] = subst(y["f"], x["t"], t)
        x["t"] = t
    elif k == "outside" and boxes:  # cites into the box
        inner = [x["row"] for b in boxes for x, _ in all_lines(b["box"])]
        ln["j"][rng.randint(1, n)] = rng.choice(inner)
    else:
        return None
    return p


def wrong(proof, rng, tries=12, rule=None):
    """(proof, verdict): a changed copy whose verdict is certain, preferably with exactly one wrong step and no doubtful ones."""
    from sim import ndref

    best = None
    for _ in range(tries):
        p = focus(proof, rng, rule) if rng.random() < 0.6 else mutate(proof, rng)
        if p == proof or not p:
            continue
        for b in blocks(p):
            for x in b:
                if "box" in x and not x.get("tsep") and "f" in x["box"][0]:
                    x["box"][0]["row"] = x["row"]  # it is written without a number of its own
        bad, grey = ndref.why(p)
        if not bad and grey:
            continue
        if not bad:
            best = best or (p, True)
        elif len(bad) == 1 and not grey:
            return p, False
        elif best is None or best[1]:
            best = (p, False)
    return best
