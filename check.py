#!/usr/bin/env python3
"""check.py <property> [--replay file] [--runs n] [--wall s]

Exit 0: the property held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself failed.
"""
import json
import os
import sys
import time
import traceback

HOME = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HOME)
sys.dont_write_bytecode = True
from sim import coord, info  # noqa: E402


def known(prop):
    p = os.path.join(HOME, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [k for k in json.load(fh).get("findings", []) if k["property"] == prop]


def describe(v):
    s = v["msg"]
    if v.get("op"):
        s += " | in " + json.dumps(v["op"])[:400]
    return f"[{v['class']}] {s}"


def broken(e):
    return {"class": "import", "msg": f"the library cannot be imported: {e}", "op": None, "phase": None}


def replay(path):
    with open(path) as fh:
        rp = json.load(fh)
    r = coord.Runner(rp["property"], [tuple(x) for x in rp["interpreters"]])
    try:
        if rp["violation"]["class"] == "import":
            viol = []
            r.zyg(0)
        else:
            viol, out = r.run(rp["plan"], rp["seed"])
    except coord.BrokenLibrary as e:
        viol = [broken(e)]
    finally:
        r.close()
    for v in viol:
        print("  " + describe(v))
    same = rp["violation"]["class"] in coord.classes(viol)
    exact = same and any(v["msg"] == rp["violation"]["msg"] for v in viol)
    print("replay: " + ("reproduced exactly" if exact else "reproduced (same kind)" if same else "not reproduced"))
    if same:
        print(f"VIOLATION property={rp['property']} replay={path}")
    return 1 if same else 0


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    if args[:1] == ["--replay"]:
        return replay(args[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    inf = info.INFO[prop]
    runs, wall = inf[tier]
    if "--runs" in args:
        runs = int(args[args.index("--runs") + 1])
    if "--wall" in args:
        wall = float(args[args.index("--wall") + 1])
    print(f"{prop}: seed {vseed}, tier {tier}, up to {runs} runs or {wall} s on {coord.REPO}", flush=True)
    t0 = time.monotonic()
    s = coord.Search(prop, tier, vseed, runs, wall)
    s.need = min(inf["min"], runs)
    try:
        s.go()
    except coord.BrokenLibrary as e:
        return report_broken(prop, vseed, tier, s, inf, e, time.monotonic() - t0)
    rc = 0
    nviol = 0
    line = None
    if s.hit is None and s.timeouts:
        # once more, alone: only a run that hangs twice counts
        i, k = s.timeouts[0]
        r = coord.Runner(prop, [coord.zyg_id(prop, vseed, k)])
        got = r.zyg(0).call({"id": 0, "prop": prop, "seed": s.seed_of(i), "tier": tier, "phase": 0, "disk": None, "wall": 120, "want_plan": True})
        r.close()
        if got.get("error") == "timeout":
            from_plan = plan_of(prop, vseed, k, s.seed_of(i), tier)
            s.hit = {"seed": s.seed_of(i), "zs": [k], "plan": from_plan, "viol": [{"class": "hang.wall", "msg": "a run that takes milliseconds did not end within 120 s", "op": None, "phase": 0}]}
        elif got.get("error"):
            s.errors.append((i, got["error"], got.get("tb", "")))
        elif got["viol"]:
            s.hit = {"seed": s.seed_of(i), "zs": [k], "plan": got.get("plan"), "viol": got["viol"]}
        else:
            print(f"run {i} was slow: it needed longer than {s.prw} s among others, and ended when run alone")
    if s.hit is not None:
        nviol = 1
        line = report(prop, vseed, tier, s, inf)
        rc = 1
    elif s.errors:
        for i, e, tb in s.errors[:2]:
            print(f"harness error in run {i}: {e}\n{tb}")
        rc = 2
    elif s.done < s.need:
        print(f"only {s.done} runs were made: not enough to say anything")
        rc = 2
    for k in known(prop):
        if rc == 0:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    info.evidence(prop, tier, vseed, s, time.monotonic() - t0, nviol, inf, HOME)
    print(f"{s.done} runs, {s.incarnations} interpreter incarnations, {s.steps} simulated steps, {len(s.nontrivial)} distinct non-trivial, {s.elapsed:.1f} s")
    if line:
        print(line, flush=True)
    return rc


def report_broken(prop, vseed, tier, s, inf, e, secs):
    s.elapsed = s.start_s = secs
    info.evidence(prop, tier, vseed, s, secs, 1, inf, HOME)
    path = write_replay(prop, vseed, 0, [coord.zyg_id(prop, vseed, 0)], broken(e), broken(e), "nothing to minimise", None)
    print("  " + describe(broken(e)))
    print(f"VIOLATION property={prop} replay={path}", flush=True)
    return 1


def write_replay(prop, vseed, seed, ids, v, first, note, plan):
    os.makedirs(os.path.join(HOME, "replays"), exist_ok=True)
    path = os.path.join(HOME, "replays", f"{prop}-{seed}.json")
    with open(path, "w") as fh:
        json.dump({"property": prop, "verif_seed": vseed, "seed": seed, "interpreters": ids, "violation": v, "found_as": first, "note": note, "plan": plan}, fh, indent=1)
    return path


def plan_of(prop, vseed, k, seed, tier):
    r = coord.Runner(prop, [coord.zyg_id(prop, vseed, k)])
    try:
        return r.zyg(0).call({"id": 0, "prop": prop, "seed": seed, "tier": tier, "phase": -1, "disk": None, "wall": 60, "want_plan": True})["plan"]
    finally:
        r.close()


def report(prop, vseed, tier, s, inf):
    h = s.hit
    v = h["viol"][0]
    print("violation found, seed", h["seed"])
    for x in h["viol"][:4]:
        print("  " + describe(x))
    plan = h["plan"] or plan_of(prop, vseed, h["zs"][0], h["seed"], tier)
    ids = [coord.zyg_id(prop, vseed, k) for k in h["zs"]]
    first = dict(v)
    note = "not minimised"
    if v["class"] != "hang.wall":
        r = coord.Runner(prop, ids)
        try:
            m = coord.Minimiser(r, plan, h["seed"], v["class"], float(os.environ.get("VERIF_MINIMISE_S", "45")))
            if m.minimise():
                note = f"minimised in {m.tries} runs"
            elif m.tries > 1:
                note = f"minimised as far as time allowed in {m.tries} runs"
            else:
                note = "did not repeat at once"
            plan = m.plan
        except coord.HarnessError as e:
            note = f"minimiser failed: {e}"
        finally:
            r.close()
        r = coord.Runner(prop, ids)  # fresh interpreters
        try:
            viol, out = r.run(plan, h["seed"])
            match = [x for x in viol if x["class"] == v["class"]]
            if match:
                v = match[0]
                note += ", replay verified in fresh interpreters"
            else:
                note += ", replay in fresh interpreters did not show it"
        except coord.HarnessError as e:
            note += f", replay failed: {e}"
        finally:
            r.close()
    path = write_replay(prop, vseed, h["seed"], ids, v, first, note, plan)
    print("minimised (" + note + "):")
    print("  " + describe(v))
    return f"VIOLATION property={prop} replay={path}"


if __name__ == "__main__":
    try:
        rc = main()
    except coord.HarnessError as e:
        print("harness error:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
