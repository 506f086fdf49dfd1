"""Plan fragments with natural-deduction proofs."""


def one(r):
    """(proof, is it right)"""
    from sim import ndforms as nf
    from sim import ndref

    if r.random() < 0.2:
        for _ in range(8):
            p = nf.quant(r)
            v = ndref.check(p)
            if v is not None:
                return p, p, v == "valid"
    if r.random() < 0.05:
        p = nf.large(r)
        w = nf.wrong(p, r, 3) if r.random() < 0.6 else None
        return (p, p, True) if w is None else (p, w[0], w[1])
    g = nf.NDGen(r, r.random() < 0.6, maxrow=r.choice([12, 20, 40]))
    p = g.unit() if r.random() < 0.5 else g.proof()
    x = r.random()
    if x < 0.25:
        for _ in range(6):
            c = nf.corrupt(p, r)
            if c is not None:
                return p, c[0], False
    elif x < 0.55:
        w = nf.wrong(p, r, rule=g.rule)
        if w is not None:
            return p, w[0], w[1]
    return p, p, True


def add_proofs(r, ops, nm, n):
    out = []
    for _ in range(n):
        _, p, ok = one(r)
        d = nm("p")
        ops.append({"o": "mkproof", "proof": p, "ok": ok, "d": d})
        out.append(d)
    return out


def add_variants(r, ops, nm, cks):
    """A short proof and changed copies of it, checked one after the other."""
    from sim import ndforms as nf

    from sim import ndref

    g = nf.NDGen(r, r.random() < 0.7, maxrow=15)
    p = g.unit()
    first = True
    if r.random() < 0.2:
        for _ in range(8):
            q = nf.quant(r)
            v = ndref.check(q)
            if v is not None:
                p, first = q, v == "valid"
                break
    seen = []
    for k in range(r.randint(2, 5)):
        w = nf.wrong(p, r, 6, g.rule) if k else (p, first)
        if w is None or w[0] in seen:
            continue
        seen.append(w[0])
        d = nm("p")
        ops += [{"o": "mkproof", "proof": w[0], "ok": w[1], "d": d}, {"o": "chk", "v": d, "ck": r.choice(cks)}]
