#!/usr/bin/env python3
"""selftest.py [runs] [property ...]: is one seed one execution?

Makes every run twice, in different interpreter processes, in different order and next to other load,
and compares everything recorded: answers, violations, schedule, faults with the place they struck, step counts, disk.
"""
import concurrent.futures
import json
import os
import sys

HOME = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HOME)
sys.dont_write_bytecode = True
from sim import coord  # noqa: E402

VSEED = int(os.environ.get("VERIF_SEED", "1"))


def whole(prop, k, seeds):
    """All the phases of the given runs, in interpreters of their own."""
    zs = {}
    out = {}

    def zyg(j):
        if j not in zs:
            zs[j] = coord.Zyg(*coord.zyg_id(prop, VSEED, j), idx=j)
            zs[j].wait_ready()
        return zs[j]

    try:
        for i in seeds:
            disk, res, ph, n, salts = None, [], 0, 1, None
            while ph < n:
                j = (k + (salts[ph] - salts[0] if salts else 0)) % 8
                r = zyg(j).call({"id": i, "prop": prop, "seed": VSEED * 1_000_003 + i, "tier": "quick", "phase": ph, "disk": disk, "wall": 300})
                res.append(r)
                if r.get("error"):
                    break
                n, disk, salts = r["nphases"], r["disk"], r.get("salts")
                ph += 1
            for r in res:
                r.pop("id", None)
            out[i] = json.dumps(res, sort_keys=True)
    finally:
        for z in zs.values():
            z.close()
    return out


def main():
    runs = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    props = sys.argv[2:] or [f"C{i:02d}" for i in range(1, 15)]
    rc = 0
    for prop in props:
        jobs = []
        with concurrent.futures.ThreadPoolExecutor(16) as ex:
            for k in range(8):
                s = list(range(k, runs, 8))
                jobs.append((k, ex.submit(whole, prop, k, s), ex.submit(whole, prop, k, s[::-1])))
            same = diff = 0
            for k, a, b in jobs:
                a, b = a.result(), b.result()
                for i in a:
                    if a[i] == b[i]:
                        same += 1
                    else:
                        diff += 1
                        rc = 1
                        x, y = json.loads(a[i]), json.loads(b[i])
                        for ph, (p, q) in enumerate(zip(x, y)):
                            keys = [f for f in p if p.get(f) != q.get(f)]
                            if keys:
                                print(f"{prop} run {i} phase {ph} differs in {keys}: " + "; ".join(f"{f}: {str(p.get(f))[:150]} / {str(q.get(f))[:150]}" for f in keys[:3]))
        print(f"{prop}: {same} runs repeated exactly, {diff} did not", flush=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
