"""Reference parser, written from the published grammars: what a text denotes, or that it denotes nothing.

parse(text, logic) -> ("term", t)   the text denotes t, whichever way its characters are cut into words
                      ("none", None) no way of cutting the text into words gives a formula
                      ("unknown", None) the grammars leave room (a keyword glued to a word, ...): nothing is expected
"""
import re

WS = re.compile(r"\s*")
SYM = re.compile(r'[a-z_][a-zA-Z0-9_\-]*[a-zA-Z0-9_]|[a-z_]|"[ !#-~]+"')
WORD = re.compile(r"[a-z_][a-zA-Z0-9_\-]*[a-zA-Z0-9_]|[a-z_]")
KEYWORDS = {
    "pl": {"true": "true", "false": "false"},
    "ltl": {"true": "ptrue", "false": "pfalse", "tt": "true", "ff": "false", "last": "last"},
    "pltl": {"true": "ptrue", "false": "pfalse", "tt": "true", "ff": "false", "start": "start"},
    "ldl": {"tt": "true", "ff": "false", "last": "last", "end": "end"},
}
RESERVED = ("true", "false", "tt", "ff", "last", "end", "start", "first")
LEVELS = {
    "pl": ["equiv", "implies", "or", "and"],
    "ltl": ["equiv", "implies", "or", "and", "W", "U", "R", "M"],
    "pltl": ["equiv", "implies", "or", "and", "S", "T"],
    "ldl": ["equiv", "implies", "or", "and"],
}
TOKENS = {"equiv": ("<->",), "implies": ("->", ">>"), "or": ("||", "|"), "and": ("&&", "&")}
UNARY = {"pl": (), "ltl": ("X[!]", "X", "F", "G"), "pltl": ("Y", "Z", "O", "H"), "ldl": ()}


class _P:
    def __init__(self, text):
        self.s = text
        self.memo = {}

    def tok(self, pos, *alts):
        p = WS.match(self.s, pos).end()
        return {p + len(t) for t in alts if self.s.startswith(t, p)}

    def letter(self, pos, name):
        """An operator that must not be part of a word: a blank, a quote or a parenthesis follows."""
        return {e for e in self.tok(pos, name) if self.s[e : e + 1] in (" ", '"', "(") and e < len(self.s)}

    def call(self, key, fn):
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = fn()
        return r

    def formula(self, lg, pos, level=0):
        return self.call((lg, level, pos), lambda: self._formula(lg, pos, level))

    def _formula(self, lg, pos, level):
        levels = LEVELS[lg]
        if level == len(levels):
            return self._unary(lg, pos)
        op = levels[level]
        out = set()
        work = [((t,), e) for t, e in self.formula(lg, pos, level + 1)]
        seen = set(work)
        while work:
            args, e = work.pop()
            out.add((args[0] if len(args) == 1 else (op,) + args, e))
            ends = self.tok(e, *TOKENS[op]) if op in TOKENS else self.letter(e, op)
            for e1 in ends:
                for t, e2 in self.formula(lg, e1, level + 1):
                    n = (args + (t,), e2)
                    if n not in seen:
                        seen.add(n)
                        work.append(n)
        return frozenset(out)

    def _unary(self, lg, pos):
        top = len(LEVELS[lg])
        out = set()
        for e in self.tok(pos, "!", "~"):
            out |= {(("not", t), e2) for t, e2 in self.formula(lg, e, top)}
        for op in UNARY[lg]:
            for e in self.letter(pos, op):
                name = {"X[!]": "X!"}.get(op, op)
                out |= {((name, t), e2) for t, e2 in self.formula(lg, e, top)}
        for e in self.tok(pos, "("):
            out |= {(t, e3) for t, e2 in self.formula(lg, e) for e3 in self.tok(e2, ")")}
        if lg == "ldl":
            for o, c, k in (("<", ">", "dia"), ("[", "]", "box")):
                for e in self.tok(pos, o):
                    for r, e2 in self.regex(e, "union"):
                        for e3 in self.tok(e2, c):
                            out |= {((k, r, t), e4) for t, e4 in self.formula("ldl", e3, top)}
        p = WS.match(self.s, pos).end()
        for w, k in KEYWORDS[lg].items():
            if self.s.startswith(w, p):
                out.add(((k,), p + len(w)))
        if lg != "ldl":
            m = SYM.match(self.s, p)
            if m and m.group() not in KEYWORDS[lg]:
                out.add((("atom", m.group()), m.end()))
        return frozenset(out)

    def regex(self, pos, rule):
        return self.call(("re", rule, pos), lambda: self._regex(pos, rule))

    def _regex(self, pos, rule):
        out = set()
        if rule in ("union", "seq"):
            sub, sign = ("seq", "+") if rule == "union" else ("star", ";")
            work = [((t,), e) for t, e in self.regex(pos, sub)]
            seen = set(work)
            while work:
                args, e = work.pop()
                out.add((args[0] if len(args) == 1 else (rule,) + args, e))
                for e1 in self.tok(e, sign):
                    for t, e2 in self.regex(e1, sub):
                        n = (args + (t,), e2)
                        if n not in seen:
                            seen.add(n)
                            work.append(n)
        elif rule == "star":
            for t, e in self.regex(pos, "test"):
                out.add((t, e))
                out |= {(("star", t), e2) for e2 in self.tok(e, "*")}
        else:
            out |= {(("test", t), e2) for t, e in self.formula("ldl", pos) for e2 in self.tok(e, "?")}
            out |= {(("prop", t), e) for t, e in self.formula("pl", pos)}
            for e in self.tok(pos, "("):
                out |= {(t, e3) for t, e2 in self.regex(e, "union") for e3 in self.tok(e2, ")")}
        return frozenset(out)

    def whole(self, lg):
        n = len(self.s)
        return {t for t, e in self.formula(lg, 0) if WS.match(self.s, e).end() == n}


def plain(text):
    """No word of the text begins with a reserved one, and none of those that contexts read differently occurs."""
    for m in WORD.finditer(re.sub(r'"[^"]*"', " ", text)):
        w = m.group()
        if any(w.startswith(k) and w != k for k in RESERVED):
            return False
    return True


def symbols_ok(t, lg):
    """No reserved word is used as a symbol (which words are reserved depends on the place)."""
    if t[0] == "atom":
        return t[1] not in RESERVED
    return all(symbols_ok(x, lg) for x in t[1:])


def parse(text, lg):
    if text.count('"') % 2:
        return "none", None
    ways = _P(text).whole(lg)
    if not ways:
        return "none", None
    if len(ways) > 1:
        return "unknown", None
    t = next(iter(ways))
    if not plain(text) or not symbols_ok(t, lg) or (lg == "ldl" and not tidy(text)):
        return "unknown", None
    return "term", lists(t)


def tidy(text):
    """Signs of different meaning are not glued: '>>', '<->' and '->' can each be cut in several ways."""
    s = re.sub(r'"[^"]*"', " ", text)
    return not re.search(r">>>|\?>>|\*>>|\)>>|<<-|>>tt|->>", s)


def lists(t):
    return [t[0]] + [x if isinstance(x, str) else lists(x) for x in t[1:]]
