"""Seeded generators of terms, interpretations, texts outside the languages."""
import re

from sim import model

ATOMS = ["a", "b", "c", "p", "q", "r"]
ODD = ["a1", "x_y", "a-b", "fooBar", "_u", "b-2-c", "aU", '"a b"', '"ab"', '"A"', '"true"', '"a & b"', '"("', '"a"', "aX", "pG", '"a  b"', '"B-"']


KEYS = ("true", "false", "tt", "ff", "last", "end", "start", "first")
FIRST = "abcdefghijklmnopqrstuvwxyz_"
INNER = FIRST + FIRST.upper() + "0123456789"
QUOTED = "".join(chr(i) for i in range(32, 127) if chr(i) != '"')


def symbol(r):
    """Any symbol of the published syntax that does not begin with a keyword."""
    n = r.choice([1, 2, 3, 5, 8, 16, 17, 33, 70])
    if r.random() < 0.4:
        return '"' + "".join(r.choice(QUOTED) for _ in range(n)) + '"'
    s = r.choice(FIRST) + "".join(r.choice(INNER) for _ in range(n - 1))
    if r.random() < 0.3 and n > 2:
        i = r.randrange(1, n - 1)
        s = s[:i] + "-" + s[i + 1 :]
    return s if not s.startswith(KEYS) else "z" + s


def relative(r, nm):
    """A symbol that differs from another one in some small way."""
    q = nm.startswith('"')
    body = nm[1:-1] if q else nm
    k = r.choice([0, 1, 2, 3, 4, 4, 4, 5])
    if k == 0:
        body = body + r.choice(["1", "_", "0", "a", "A"])
    elif k == 1:
        body = "".join(c.upper() if i and r.random() < 0.5 else c for i, c in enumerate(body))
    elif k == 2 and q:
        i = r.randrange(len(body) + 1)
        body = body[:i] + r.choice([" ", "  ", "-", "&"]) + body[i:]
    elif k == 3:
        body = body + body
    elif k == 4:
        q = True
    else:
        body = body[0] + body[1:].replace("_", "-") if not body.endswith("_") else body + "x"
    if q:
        return '"' + body + '"'
    return body if not body.startswith(KEYS) and re.fullmatch(r"[a-z_]([a-zA-Z0-9_-]*[a-zA-Z0-9_])?", body) else nm


class Gen:
    def __init__(self, rng, natoms=4, odd=0.15):
        self.rng = rng
        self.pool = rng.sample(ATOMS, min(natoms, len(ATOMS)))
        self.odd = odd
        self.made = []

    def atom(self):
        r = self.rng
        if r.random() < self.odd:
            x = r.random()
            if x < 0.5:
                return ["atom", r.choice(ODD)]
            if x < 0.75:
                return ["atom", relative(r, r.choice(self.pool + self.made))]
            nm = symbol(r)
            self.made = self.made[-7:] + [nm]
            return ["atom", nm]
        return ["atom", r.choice(self.pool)]

    def leaf(self, lg):
        r = self.rng
        x = r.random()
        if lg == "ldl":
            return [r.choice(["true", "false", "true", "false", "last", "end"])]
        if x < 0.78:
            return self.atom()
        if lg == "pl":
            return [r.choice(["true", "false"])]
        if lg == "ltl":
            return [r.choice(["true", "false", "ptrue", "pfalse", "last"])]
        return [r.choice(["true", "false", "ptrue", "pfalse", "start"])]

    def term(self, lg, depth, rshift=False):
        r = self.rng
        if depth <= 0 or r.random() < 0.12:
            if lg == "ldl" and depth > -2 and r.random() < 0.7:
                return [r.choice(["dia", "box"]), self.regex(0), [r.choice(["true", "false"])]]
            return self.leaf(lg)
        x = r.random()
        own_n, own_u = model.NARY[lg], model.UNARY[lg]
        if lg == "ldl" and x < 0.45:
            return [r.choice(["dia", "box"]), self.regex(depth - 1), self.term("ldl", depth - 1, rshift)]
        if own_u and x < 0.25:
            return [r.choice(own_u), self.term(lg, depth - 1, rshift)]
        if own_n and x < 0.5:
            return [r.choice(own_n)] + [self.term(lg, depth - 1, rshift) for _ in range(self.arity())]
        if r.random() < 0.22:
            return ["not", self.term(lg, depth - 1, rshift)]
        if rshift and r.random() < 0.12:
            return ["rshift", self.term(lg, depth - 1, rshift), self.term(lg, depth - 1, rshift)]
        op = r.choices(["and", "or", "implies", "equiv"], [3, 3, 2, 1.5])[0]
        args = [self.term(lg, depth - 1, rshift) for _ in range(self.arity())]
        if r.random() < 0.12:  # provoke the simplifications
            y = r.random()
            if y < 0.4:
                args.append(r.choice(args))
            elif y < 0.7:
                args.append(["not", r.choice(args)])
            else:
                args.insert(r.randrange(len(args) + 1), [r.choice(["true", "false"])])
        return [op] + args

    def arity(self):
        return self.rng.choices([2, 3, 4], [7, 2, 1])[0]

    def regex(self, depth):
        r = self.rng
        if depth <= 0 or r.random() < 0.25:
            if r.random() < 0.15:
                return ["test", [r.choice(["true", "false", "end", "last"])]]
            return ["prop", self.term("pl", min(depth, 1)) if depth > 0 else r.choice([self.atom(), self.atom(), ["true"]])]
        k = r.choice(["seq", "union", "star", "test", "prop", "seq", "union"])
        if k in ("seq", "union"):
            return [k] + [self.regex(depth - 1) for _ in range(self.arity())]
        if k == "star":
            return ["star", self.regex(depth - 1)]
        if k == "test":
            return ["test", self.term("ldl", depth - 1)]
        return ["prop", self.term("pl", depth - 1)]

    def any_logic(self, weights=(3, 2, 2, 2)):
        return self.rng.choices(["pl", "ltl", "pltl", "ldl"], weights)[0]

    def shuffled(self, t, p=0.7):
        """The same term with operands in other orders, at any depth (whether or not the order matters there)."""
        r = self.rng
        a = [self.shuffled(x, p) if isinstance(x, list) else x for x in t[1:]]
        if t[0] not in ("dia", "box", "rshift", "atom") and len(a) > 1 and r.random() < p:
            if t[0] in model.COMM or r.random() < 0.15:
                r.shuffle(a)
            if t[0] in model.COMM and r.random() < 0.2:
                a.insert(r.randrange(len(a) + 1), r.choice(a))
        return [t[0]] + a

    def variant(self, t, lg):
        """A term close to t: equal up to operand order, or different in one place."""
        r = self.rng
        if r.random() < 0.3:
            return self.shuffled(t)
        t = [x if not isinstance(x, list) else list(x) for x in t]
        if t[0] == "atom":
            return ["atom", r.choice(self.pool + ODD[:4])]
        subs = [i for i, x in enumerate(t) if isinstance(x, list)]
        if not subs:
            return self.leaf(lg)
        nary = ("and", "or", "implies", "equiv") + tuple(model.NARY[lg]) if lg != "re" else model.NARY["re"]
        z = r.random()
        if z < 0.12 and t[0] in nary:  # another number of operands
            a = t[1:]
            y = r.random()
            if y < 0.4 and len(a) > 2:
                del a[r.choice([0, -1, -1])]
            elif y < 0.6 and len(a) > 2:
                k = r.randint(1, len(a) - 2)
                a[k:] = [[t[0]] + a[k:]]
            elif y < 0.8:
                a.insert(r.choice([0, len(a), len(a)]), r.choice(a))
            else:
                a.insert(r.choice([0, len(a), len(a)]), self.regex(0) if lg == "re" else self.leaf(lg))
            return [t[0]] + a
        if z < 0.24:  # another operator
            same = [nary, ("dia", "box")] + ([tuple(model.UNARY[lg]) + ("not",)] if lg != "re" else [])
            same = [x for x in same if t[0] in x]
            if same:
                return [r.choice(same[0])] + t[1:]
        y = r.random()
        if len(subs) >= 2 and t[0] not in ("dia", "box") and y < 0.5:
            a = t[1:]
            r.shuffle(a)
            return [t[0]] + a
        i = r.choice(subs)
        slg = lg
        if t[0] in ("dia", "box"):
            slg = "re" if i == 1 else "ldl"
        elif t[0] == "prop":
            slg = "pl"
        elif t[0] == "test":
            slg = "ldl"
        if slg == "re" and r.random() < 0.3:
            t[i] = self.regex(1)
        else:
            t[i] = self.variant(t[i], slg)
        return t

    def deep(self, lg, n):
        """A chain of n nested operators."""
        r = self.rng
        t = self.leaf(lg) if lg != "ldl" else ["true"]
        ops = list(model.UNARY[lg]) + list(model.NARY[lg]) + ["and", "or", "implies", "not", "equiv"]
        if lg == "ldl":
            ops += ["dia", "box", "dia"]
        style = r.choice(["mix", "one", "alt", "alt"])
        two = [r.choice(ops), r.choice(ops)]
        if r.random() < 0.3:
            two[0] = "not"
        for i in range(n):
            o = r.choice(ops) if style == "mix" else (two[0] if style == "one" else two[i % 2])
            if o in model.UNARY[lg] or o == "not":
                t = [o, t]
            elif o in ("dia", "box"):
                t = [o, ["prop", self.atom()], t]
            else:
                other = self.atom() if lg != "ldl" else ["dia", ["prop", self.atom()], ["true"]]
                t = [o, other, t] if r.random() < 0.5 else [o, t, other]
        return t

    def wide(self, lg, n):
        r = self.rng
        op = r.choice(["and", "or", "implies", "equiv"] + list(model.NARY[lg]))
        mk = (lambda i: ["atom", f"w{i}"]) if lg != "ldl" else (lambda i: ["dia", ["prop", ["atom", f"w{i}"]], ["true"]])
        args = [mk(i) for i in range(n)]
        for i in range(n):
            if r.random() < 0.2:
                args[i] = ["not", args[i]]
        return [op] + args

    def interp(self, names):
        """Interpretation spec: ["set", [true symbols]] or ["dict", {symbol: bool}]."""
        r = self.rng
        names = sorted(names)
        if r.random() < 0.5:
            return ["set", [n for n in names if r.random() < 0.5] + (["zz"] if r.random() < 0.3 else [])]
        d = {n: r.random() < 0.5 for n in names if r.random() < 0.8}
        return ["dict", d]

    def bad_text(self, lg):
        """A text that is certainly outside the language."""
        r = self.rng
        t = self.term(lg, r.randint(0, 2))
        s = model.render(t, lg, r)
        k = r.randrange(8)
        if k == 0:
            return "(" + s
        if k == 1:
            return s + ")"
        if k == 2:
            return s + " &"
        if k == 3:
            return "| " + s
        if k == 4:
            return s + " " + ("tt" if lg == "ldl" else "a")
        if k == 5:
            return r.choice(["", " ", "()", "a b", "Abc", "1x", "a $ b", "& a", "a <- b", "a = b"])
        if k == 6:
            return s + " -> "
        return "! (" + s + " &)"


def true_set(spec):
    return set(spec[1]) if spec[0] == "set" else {k for k, v in spec[1].items() if v}
