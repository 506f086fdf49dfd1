"""An independent checker of natural-deduction proofs, by the textbook rules, over the plain data of ndlib.

check(proof) -> "valid", "invalid", or None where textbooks (or the statement of the property) leave room:
operand order, names of bound variables, order of citations, citations too many, assumptions outside the head of a box,
terms that occur earlier only bound or in closed boxes, formulas whose construction merges operands.
"""
from sim import ndforms as nf

ARITY = {"and_e1": 1, "and_e2": 1, "and_i": 2, "or_i1": 1, "or_i2": 1, "copy": 1, "dneg_i": 1, "dneg_e": 1, "impl_e": 2, "MT": 2, "neg_e": 2, "bot_e": 1,
         "impl_i": 1, "neg_i": 1, "or_e": 3, "forall_e": 1, "forall_i": 1, "exists_i": 1, "exists_e": 2}


# ------------------------------------------------------------------------------------------------ comparing
class Env:
    """Pairs of binders met on the way down, and the term standing for x."""

    __slots__ = ("pairs", "cand")

    def __init__(self, pairs=(), cand=None):
        self.pairs, self.cand = pairs, cand


def tvars(t):
    if t[0] == "v":
        return {t[1]}
    if t[0] == "f":
        return set().union(*[tvars(y) for y in t[2]]) if t[2] else set()
    return set()


def mterm(p, q, x, e):
    """Environments under which q is p with x replaced."""
    if p[0] == "v":
        for a, b in reversed(e.pairs):
            if a == p[1]:
                hit = q[0] == "v" and q[1] == b and next(k for k in reversed(e.pairs) if k[1] == b)[0] == a
                return [e] if hit else []
    if x is not None and p == x:
        if tvars(q) & {b for _, b in e.pairs}:
            return []  # captured: not an instance
        if e.cand is None:
            return [Env(e.pairs, q)]
        return [e] if e.cand == q else []
    if p[0] != q[0] or p[1] != q[1]:
        return []
    if p[0] == "v":
        return [] if any(b == q[1] for _, b in e.pairs) else [e]
    if p[0] == "c":
        return [e]
    return mterms(p[2], q[2], x, e)


def mterms(ps, qs, x, e):
    if len(ps) != len(qs):
        return []
    es = [e]
    for p, q in zip(ps, qs):
        es = [n for k in es for n in mterm(p, q, x, k)]
    return es


def match(p, q, x, e, loose):
    if p[0] != q[0]:
        return []
    k = p[0]
    if k == "P":
        return mterms(p[2], q[2], x, e) if p[1] == q[1] else []
    if k == "pa":
        return [e] if p[1] == q[1] else []
    if k == "bot":
        return [e]
    if k == "not":
        return match(p[1], q[1], x, e, loose)
    if k in ("all", "ex"):
        if p[1] != q[1] and not loose:
            return []
        out = match(p[2], q[2], x, Env(e.pairs + ((p[1][1], q[1][1]),), e.cand), loose)
        return [Env(e.pairs, o.cand) for o in out]
    out = [n for m in match(p[1], q[1], x, e, loose) for n in match(p[2], q[2], x, m, loose)]
    if loose and k != "imp":
        out += [n for m in match(p[1], q[2], x, e, loose) for n in match(p[2], q[1], x, m, loose)]
    return out


def same(f, g):
    """True, False, or None: equal up to operand order and names of bound variables."""
    if f == g:
        return True
    return None if match(f, g, None, Env(), True) else False


def instance(body, x, f, t=None):
    """Is f the formula body with some term (or t) for x?"""
    for loose in (False, True):
        for e in match(body, f, x, Env(cand=t), loose):
            if not loose:
                if e.cand is not None and nf.subst(body, x, e.cand) != f:
                    return None
                if not clean(f):
                    return None
                return True
            return None
    return False


def clean(f):
    """Building f merges and removes nothing."""
    k = f[0]
    if k in ("P", "pa", "bot"):
        return True
    if k == "not":
        return f[1][0] not in ("not", "bot") and clean(f[1])
    if k in ("all", "ex"):
        return f[2][0] != "bot" and clean(f[2])
    if k in ("imp", "iff"):
        return "bot" not in (f[1][0], f[2][0]) and clean(f[1]) and clean(f[2]) and (k == "imp" or nf.apart(f[1], f[2]))
    return clean(f[1]) and clean(f[2]) and (nf.andable if k == "and" else nf.orable)(f[1], f[2])


def free_terms(f):
    out = []
    for t in nf.terms_in(f):
        out += subterms(t)
    return out


def subterms(t):
    return [t] + ([s for y in t[2] for s in subterms(y)] if t[0] == "f" else [])


def binders(f):
    if f[0] in ("P", "pa", "bot"):
        return set()
    if f[0] in ("all", "ex"):
        return {f[1][1]} | binders(f[2])
    return set().union(*[binders(g) for g in f[1:]])


# ------------------------------------------------------------------------------------------------ the rules
class Checker:
    def __init__(self):
        self.bad = []
        self.grey = []

    def add(self, v, ln, why=""):
        if v is False:
            self.bad.append((ln["row"], why))
        elif v is None:
            self.grey.append((ln["row"], why))

    def block(self, lines, vis, depth, t=None, tsep=False, closed=()):
        closed = list(closed)
        for i, ln in enumerate(lines):
            if "box" in ln:
                x = ln["t"]
                if x is not None:
                    for k in vis.values():
                        if k[0] == "f":
                            if x in free_terms(k[1]):
                                self.add(False, ln, "term not fresh")
                            elif x[1] in binders(k[1]):
                                self.add(None, ln, "term bound earlier")
                    if x[0] == "f" or any(x in free_terms(f) or x[1] in binders(f) for f in closed):
                        self.add(None, ln, "term used in a closed box")
                    if not ln.get("tsep") and "f" not in ln["box"][0]:
                        self.add(None, ln, "box in box")
                closed += self.block(ln["box"], dict(vis), depth + 1, x, ln.get("tsep"), closed)
                vis[ln["row"]] = ("box", ln)
            else:
                self.step(ln, vis, depth, head=i == 0 and depth > 0 and not tsep)
                vis[ln["row"]] = ("f", ln["f"])
                closed.append(ln["f"])
        return closed

    def step(self, ln, vis, depth, head):
        f, rule, refs = ln["f"], ln["j"][0], ln["j"][1:]
        if not clean(f):
            self.add(None, ln, "merges")
        gone = [r for r in refs if r not in vis]
        if gone:
            self.add(False, ln, "not in scope")
            return
        if rule in ("premise", "assumption"):
            ok = depth == 0 if rule == "premise" else head
            self.add(True if ok and not refs else None, ln, rule)
            return
        n = ARITY[rule]
        if len(refs) < n:
            self.add(False, ln, "too few citations")
            return
        if len(refs) > n:
            self.add(None, ln, "too many citations")
            refs = refs[:n]
        args = [vis[r] for r in refs]
        want = {"impl_i": "b", "neg_i": "b", "forall_i": "b", "or_e": "fbb", "exists_e": "fb"}.get(rule, "f" * n)
        if "".join(a[0][0] for a in args) != want:
            v = None if sorted(a[0][0] for a in args) == sorted(want) else False
            self.add(v, ln, "kind of citation")
            return
        vals = [a[1] for a in args]
        self.add(getattr(self, "r_" + rule)(f, *vals), ln, rule)
        if n == 2 and want == "ff" and self.bad and self.bad[-1] == (ln["row"], rule):
            if getattr(self, "r_" + rule)(f, *reversed(vals)) is not False:
                self.bad.pop()
                self.add(None, ln, "order of citations")

    def r_and_e1(self, f, a, i=1):
        if a[0] != "and":
            return False
        if same(f, a[i]):
            return True
        return None if same(f, a[i]) is None else False

    def r_and_e2(self, f, a):
        return self.r_and_e1(f, a, 2)

    def r_and_i(self, f, a, b):
        return same(f, ["and", a, b]) if nf.andable(a, b) else None

    def r_or_i1(self, f, a, i=1):
        return same(f[i], a) if f[0] == "or" else False

    def r_or_i2(self, f, a):
        return self.r_or_i1(f, a, 2)

    def r_copy(self, f, a):
        return same(f, a)

    def r_dneg_i(self, f, a):
        return same(f, a)

    r_dneg_e = r_dneg_i

    def imps(self, f, a, b):
        """Is f the implication a -> b?"""
        odd = "bot" in (a[0], b[0]) or not nf.impable(a, b)  # a >> b merges something
        if f[0] == "imp":
            v = self._and(same(a, f[1]), same(b, f[2]))
            return None if odd and v is False else v
        if odd:
            return None
        return same(f, nf.imp(a, b))

    def r_impl_e(self, f, a, b):
        return self.imps(b, a, f)

    def r_MT(self, f, a, b):
        # a: phi -> psi, b: ~psi, f: ~phi
        if a[0] == "imp":
            v = self._and(same(nf.neg(a[1]), f), same(nf.neg(a[2]), b))
            return None if v and (f[0] != "not" or b[0] != "not") else v
        if a[0] != "or":
            return None if a[0] == "not" and "bot" in (f[0], b[0]) else False
        v = self._and(same(neg3(a[1]), neg3(f)), same(a[2], nf.neg(b)))
        w = self._and(same(neg3(a[2]), neg3(f)), same(a[1], nf.neg(b)))
        if v is False and w is not False:
            v = None
        if v is False and f[0] == b[0] == "not" and not nf.impable(f[1], b[1]):
            return None  # building the implication merges something
        if v and (f[0] != "not" or b[0] != "not" or a[1][0] != "not"):
            return None  # a double negation is involved
        return v

    @staticmethod
    def _and(a, b):
        return False if a is False or b is False else None if a is None or b is None else True

    def r_neg_e(self, f, a, b):
        if f != ["bot"]:
            return False
        if a[0] == "bot" or b[0] == "bot":
            return False
        if a[0] == "not":
            return same(nf.neg(a), b)
        return same(b, nf.neg(a))

    def r_bot_e(self, f, a):
        return a == ["bot"]

    def head_tail(self, b):
        h, t = b["box"][0], b["box"][-1]
        if b["t"] is not None:
            return False
        if "f" not in h or "f" not in t:
            return False
        return (h, t)

    def r_impl_i(self, f, b):
        ht = self.head_tail(b)
        if not ht:
            return False
        h, t = ht
        return self._and(self.imps(f, h["f"], t["f"]), True if h["j"] == ["assumption"] else None)

    def r_neg_i(self, f, b):
        ht = self.head_tail(b)
        if not ht:
            return False
        h, t = ht
        if h["f"][0] == "bot":
            return None
        if t["f"] != ["bot"]:
            return False
        return self._and(same(f, nf.neg(h["f"])), True if h["j"] == ["assumption"] else None)

    def r_or_e(self, f, o, b, c):
        hb, hc = self.head_tail(b), self.head_tail(c)
        if not hb or not hc:
            return False
        v = self._and(same(f, hb[1]["f"]), same(f, hc[1]["f"]))
        if v is False:
            return False
        if same(hb[0]["f"], hc[0]["f"]) is True:  # one case only: a disjunction with itself at best
            return None if same(o, hb[0]["f"]) is not False else False
        if not nf.orable(hb[0]["f"], hc[0]["f"]):
            return None
        if o[0] != "or":
            return False
        m = self._and(same(o[1], hb[0]["f"]), same(o[2], hc[0]["f"]))
        if m is False:
            m = None if self._and(same(o[2], hb[0]["f"]), same(o[1], hc[0]["f"])) is not False else False
        v = self._and(v, m)
        return self._and(v, True if hb[0]["j"] == ["assumption"] and hc[0]["j"] == ["assumption"] else None)

    def r_forall_e(self, f, a):
        if a[0] != "all":
            return False
        return instance(a[2], a[1], f)

    def r_exists_i(self, f, a):
        if f[0] != "ex":
            return False
        return instance(f[2], f[1], a)

    def r_forall_i(self, f, b):
        if f[0] != "all" or b["t"] is None or "f" not in b["box"][-1]:
            return False
        y = b["t"]
        if y in free_terms(f):
            return False
        v = instance(f[2], f[1], b["box"][-1]["f"], y)
        if y[1] in binders(f[2] if y == f[1] else f):
            v = self._and(v, None)
        if not b.get("tsep"):
            v = self._and(v, None)  # the head of the box is an assumption about the term
        return v

    def r_exists_e(self, f, e, b):
        if e[0] != "ex" or b["t"] is None:
            return False
        h, t = b["box"][0], b["box"][-1]
        if "f" not in h or "f" not in t:
            return False
        y = b["t"]
        v = instance(e[2], e[1], h["f"], y)
        if v is False:
            return False
        c = same(f, t["f"])
        if c is False:
            return False
        if y in free_terms(f) and y in free_terms(t["f"]):
            return False
        v = self._and(v, c)
        if y[1] in binders(f) or h["j"] != ["assumption"] or b.get("tsep"):
            v = self._and(v, None)
        return v


def neg3(f):
    return nf.neg(f)


def check(proof):
    bad, grey = why(proof)
    if bad:
        return "invalid"
    return None if grey else "valid"


def why(proof):
    """(wrong steps, doubtful steps)"""
    c = Checker()
    c.block(proof, {}, 0)
    if any(g[1] == "merges" for g in c.grey):
        return [], c.grey
    return c.bad, c.grey
