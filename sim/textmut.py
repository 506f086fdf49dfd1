"""Texts near the languages: rendered terms, damaged; words thrown together."""
from sim import model

COMMON = ["!", "~", "&", "&&", "|", "||", "->", ">>", "<->", "(", ")", "a", "b", "p", '"a b"', " ", "true", "false"]
WORDS = {
    "pl": COMMON + ["tt", "last"],
    "ltl": COMMON + ["tt", "ff", "last", "X", "X[!]", "F", "G", "U", "R", "W", "M", "end"],
    "pltl": COMMON + ["tt", "ff", "start", "Y", "Z", "O", "H", "S", "T", "first"],
    "ldl": COMMON + ["tt", "ff", "last", "end", "<", ">", "[", "]", "?", "*", ";", "+", "<a>", "[b]", "tt?"],
}
CHARS = list("!~&|<>-()[]?*;+ abpX\"_1AUFGYSTHO=$,.'\\{}/%") + ["\t", "\n", "\x0b", "\xa0", "é", "\x00", "tt", "->", "<->", "[!]"]


def text(g, r, lg, depth=3):
    """A text that may or may not be in the language."""
    y = r.random()
    if y < 0.12:
        return (r.choice(["", " "])).join(r.choice(WORDS[lg]) for _ in range(r.randint(0, 8)))
    if y < 0.2:
        other = r.choice([x for x in WORDS if x != lg])
        s = model.render(g.term(other, r.randint(0, 2)), other, r)
    else:
        s = model.render(g.term(lg, r.randint(0, depth)), lg, r)
    for _ in range(r.choices([0, 1, 2, 3], [1, 8, 3, 1])[0] if y > 0.2 else r.choice([0, 0, 1])):
        s = damage(r, s, lg)
    return s


def damage(r, s, lg):
    i = r.randrange(len(s) + 1)
    k = r.randrange(13)
    if k == 0 and s:  # a character lost
        i = r.randrange(len(s))
        return s[:i] + s[i + 1 :]
    if k == 1:
        return s[:i] + r.choice(CHARS) + s[i:]
    if k == 2 and s:
        i = r.randrange(len(s))
        return s[:i] + r.choice(CHARS) + s[i + 1 :]
    if k == 3:
        return s[:i] + r.choice(WORDS[lg]) + s[i:]
    if k == 4 and s:  # a piece lost
        j = min(len(s), i + r.randint(1, 5))
        return s[:i] + s[j:]
    if k == 5 and s:  # a piece twice
        j = min(len(s), i + r.randint(1, 6))
        return s[:j] + s[i:j] + s[j:]
    if k == 6 and len(s) > 1:  # two characters change places
        i = r.randrange(len(s) - 1)
        return s[:i] + s[i + 1] + s[i] + s[i + 2 :]
    if k == 7:  # cut short (a torn read)
        return s[:i]
    if k == 8:  # one sign for another
        at = [j for j, c in enumerate(s) if not c.isalnum() and not c.isspace()]
        if at:
            j = r.choice(at)
            return s[:j] + r.choice(WORDS[lg]) + s[j + 1 :]
    if k > 9:  # one sign twice, or gone
        at = [j for j, c in enumerate(s) if c in "*?;+<>[]()!~&|-"]
        if at:
            kinds = sorted({s[j] for j in at})
            c = r.choice(kinds)
            j = r.choice([j for j in at if s[j] == c])
            return s[:j] + r.choice([s[j] * 2, s[j] * 2, s[j] + " " + s[j], ""]) + s[j + 1 :]
    return " ".join([s, r.choice(WORDS[lg])]) if r.random() < 0.5 else " ".join([r.choice(WORDS[lg]), s])
