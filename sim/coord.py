"""Starts interpreters, hands out seeds, judges, minimises, writes evidence."""
import copy
import json
import os
import random
import selectors
import subprocess
import sys
import time
import zlib

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
BARE = ("C09", "C13", "C14")
BITS = [0, 0, 0, 3, 8, 0, 2, 0]
NSALT = 8


class HarnessError(Exception):
    pass


class BrokenLibrary(Exception):
    """The library cannot even be imported."""


class Zyg:
    """One interpreter with a fixed hash seed; every job it is given runs in a fork of it."""

    def __init__(self, mode, salt, bits, hashseed, idx=0):
        self.cfg = {"mode": mode, "salt": salt, "bits": bits, "repo": REPO, "home": HOME}
        self.id = {"mode": mode, "salt": salt, "bits": bits, "hashseed": hashseed}
        self.idx = idx
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8",
               "HOME": "/nonexistent", "PYTHONNOUSERSITE": "1"}
        if os.environ.get("VERIF_DEBUG"):
            env["VERIF_DEBUG"] = "1"
        self.p = subprocess.Popen([PY, "-B", os.path.join(HOME, "sim", "zygote.py"), json.dumps(self.cfg)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get("VERIF_DEBUG") else subprocess.DEVNULL, env=env, cwd="/")
        self.buf = b""
        self.out = 0
        self.ready = False

    def send(self, job):
        self.p.stdin.write(json.dumps(job).encode() + b"\n")
        self.p.stdin.flush()
        self.out += 1

    def lines(self):
        d = os.read(self.p.stdout.fileno(), 1 << 20)
        if not d:
            raise HarnessError(f"interpreter {self.id} died with status {self.p.wait()}")
        self.buf += d
        *full, self.buf = self.buf.split(b"\n")
        return [json.loads(x) for x in full]

    def wait(self):
        while True:
            r = self.lines()
            if r:
                return r

    def wait_ready(self):
        r = self.wait()[0]
        if not r.get("ready") and r.get("lib"):
            raise BrokenLibrary(r["error"])
        if not r.get("ready"):
            raise HarnessError("interpreter did not start: " + r.get("error", "?") + "\n" + r.get("tb", ""))
        self.ready = True

    def call(self, job):
        self.send(job)
        self.out -= 1
        return self.wait()[0]

    def close(self):
        try:
            self.p.stdin.close()
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


def zyg_id(prop, vseed, k):
    mode = "bare" if prop == "C09" else "plain" if prop in BARE else "lib"
    h = zlib.crc32(f"salt:{vseed}:{k}".encode())
    return mode, h, BITS[k], (h ^ 0x5BD1E995) % 4294967295


def diff_answers(runs):
    """First difference between the answers of the phases' threads stage."""
    a = runs[0]["answers"]
    for r in runs[1:]:
        b = r["answers"]
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return f"call {x[:2]}: {json.dumps(x[2])[:250]} in one interpreter, {json.dumps(y[2])[:250]} in another"
        if len(a) != len(b):
            return f"{len(a)} answers in one interpreter, {len(b)} in another"
    return None


class Runner:
    """Runs whole plans (all their phases) on given interpreters, one after another."""

    def __init__(self, prop, ids):
        self.prop = prop
        self.ids = ids
        self.z = {}

    def zyg(self, k):
        if k not in self.z:
            self.z[k] = Zyg(*self.ids[k])
            self.z[k].wait_ready()
        return self.z[k]

    def run(self, plan, seed, wall=60):
        """-> (violations, results per phase)"""
        disk, out, viol = {}, [], []
        for p in range(len(plan["phases"])):
            k = p % len(self.ids)
            r = self.zyg(k).call({"id": 0, "prop": self.prop, "seed": seed, "plan": plan, "phase": p, "disk": disk, "wall": wall})
            if r.get("error") == "timeout":
                viol.append({"class": "hang.wall", "msg": f"no answer within {wall} s", "op": None, "phase": p})
                return viol, out
            if r.get("error"):
                raise HarnessError(r["error"] + "\n" + r.get("tb", ""))
            out.append(r)
            viol += r["viol"]
            disk = r.get("disk")
        if plan.get("compare"):
            viol = compare(out, viol)
        return viol, out

    def close(self):
        for z in self.z.values():
            z.close()


def compare(out, viol):
    viol = [v for v in viol if v["class"].startswith("hang")]
    d = diff_answers(out)
    if d:
        viol.append({"class": "differ", "msg": d, "op": None, "phase": None})
    return viol


# --------------------------------------------------------------------------- minimisation


def classes(viol):
    return {v["class"] for v in viol}


class Minimiser:
    def __init__(self, runner, plan, seed, want, seconds, wall=60):
        self.r = runner
        self.plan = plan
        self.seed = seed
        self.want = want
        self.end = time.monotonic() + seconds
        self.tries = 0
        self.wall = wall

    def late(self):
        return time.monotonic() > self.end

    def ok(self, plan):
        if self.late():
            return False
        self.tries += 1
        try:
            v, out = self.r.run(plan, self.seed, self.wall)
        except HarnessError:
            return False
        if self.want in classes(v):
            self.last = out
            return True
        return False

    def attempt(self, plan):
        """Try the plan under its own schedule and, if threads interleave, under a few others."""
        if self.ok(plan):
            self.plan = plan
            return True
        multi = [p for p in plan["phases"] if len(p.get("threads", ())) > 1]
        if multi:
            rng = random.Random(self.tries)
            for mean in (3, 10, 40):
                q = copy.deepcopy(plan)
                for p in q["phases"]:
                    if len(p.get("threads", ())) > 1:
                        p["policy"] = {"kind": "rw", "mean": mean, "seed": rng.randrange(1 << 30)}
                if self.ok(q):
                    self.plan = q
                    return True
        return False

    def ddlist(self, get, put):
        """Delete chunks of a list inside the plan."""
        n = max(1, len(get(self.plan)) // 2)
        while n >= 1 and not self.late():
            i = 0
            while i < len(get(self.plan)) and not self.late():
                q = copy.deepcopy(self.plan)
                lst = get(q)
                put(q, lst[:i] + lst[i + n:])
                if not self.attempt(q):
                    i += n
            n //= 2

    def minimise(self):
        if not self.ok(self.plan):
            return False
        if self.plan.get("nomin"):
            return True
        # threads
        for _ in range(2):
            for p in range(len(self.plan["phases"])):
                t = 0
                while t < len(self.plan["phases"][p].get("threads", [])):
                    q = copy.deepcopy(self.plan)
                    if len(q["phases"][p]["threads"]) == 1:
                        break
                    del q["phases"][p]["threads"][t]
                    if not self.attempt(q):
                        t += 1
                for part in ("final", "setup"):
                    if self.plan["phases"][p].get(part):
                        self._dd(p, part, None)
                for t in range(len(self.plan["phases"][p].get("threads", []))):
                    self._dd(p, "threads", t)
            self.faults()
        self.many()
        self.terms()
        self.schedule()
        return self.ok(self.plan)

    def _dd(self, p, part, t):
        def get(pl):
            return pl["phases"][p][part] if t is None else pl["phases"][p][part][t]

        def put(pl, v):
            if t is None:
                pl["phases"][p][part] = v
            else:
                pl["phases"][p][part][t] = v

        self.ddlist(get, put)

    def each_op(self, plan):
        for p, ph in enumerate(plan["phases"]):
            for part in ("setup", "final"):
                for i, op in enumerate(ph.get(part, [])):
                    yield op
            for t in ph.get("threads", []):
                for op in t:
                    yield op

    def faults(self):
        n = sum(1 for _ in self.each_op(self.plan))
        for i in range(n):
            if self.late():
                return
            q = copy.deepcopy(self.plan)
            op = list(self.each_op(q))[i]
            if op.pop("f", None) is not None:
                self.attempt(q)

    def many(self):
        """Shorten long histories."""
        n = sum(1 for _ in self.each_op(self.plan))
        for i in range(n):
            if list(self.each_op(self.plan))[i]["o"] != "many":
                continue
            step = 1 << 14
            while step and not self.late():
                q = copy.deepcopy(self.plan)
                op = list(self.each_op(q))[i]
                op["n"] -= step
                if op["n"] < 1 or not self.attempt(q):
                    step //= 2
            j = 0
            while not self.late():
                q = copy.deepcopy(self.plan)
                op = list(self.each_op(q))[i]
                if len(op["ops"]) < 2 or j >= len(op["ops"]):
                    break
                del op["ops"][j]
                if not self.attempt(q):
                    j += 1

    def terms(self):
        from sim import model

        n = sum(1 for _ in self.each_op(self.plan))
        for i in range(n):
            while not self.late():
                op = list(self.each_op(self.plan))[i]
                t = op.get("term")
                if op["o"] not in ("parse", "build") or not isinstance(t, list):
                    break
                done = True
                for c in t[1:]:
                    if not isinstance(c, list):
                        continue
                    q = copy.deepcopy(self.plan)
                    o = list(self.each_op(q))[i]
                    o["term"] = c
                    if o["o"] == "parse":
                        try:
                            o["text"] = model.render(c, o["lg"], random.Random(0))
                        except Exception:
                            continue
                    try:
                        model.node(c, o["lg"])
                    except Exception:
                        continue
                    if self.ok(q):
                        self.plan = q
                        done = False
                        break
                if done:
                    break

    def schedule(self):
        if not self.ok(self.plan):
            return
        q = copy.deepcopy(self.plan)
        for p, r in zip(q["phases"], self.last):
            if "schedule" in r and "policy" in p:
                p["policy"] = {"kind": "explicit", "schedule": r["schedule"]}
        if not self.ok(q):
            return
        self.plan = q
        for p in range(len(q["phases"])):
            if self.plan["phases"][p].get("policy", {}).get("kind") != "explicit":
                continue
            n = max(1, len(self.plan["phases"][p]["policy"]["schedule"]) // 2)
            while n >= 1 and not self.late():
                i = 0
                while i < len(self.plan["phases"][p]["policy"]["schedule"]) and not self.late():
                    q = copy.deepcopy(self.plan)
                    s = q["phases"][p]["policy"]["schedule"]
                    q["phases"][p]["policy"]["schedule"] = s[:i] + s[i + n:]
                    if self.ok(q):
                        self.plan = q
                    else:
                        i += n
                n //= 2


# --------------------------------------------------------------------------- the search


class Search:
    def __init__(self, prop, tier, vseed, runs, wall, per_run_wall=60, workers=int(os.environ.get("VERIF_WORKERS", "8"))):
        self.prop, self.tier, self.vseed = prop, tier, vseed
        self.runs, self.wall, self.prw = runs, wall, per_run_wall
        self.workers = workers
        self.need = 0  # below this many runs the time limit is not heeded
        self.stats = {}
        self.sites = set()
        self.inters = set()
        self.nontrivial = set()
        self.steps = 0
        self.done = 0
        self.incarnations = 0
        self.ratio = [0, ""]
        self.samples = []
        self.injsites = set()
        self.hit = None  # (seed, ids, plan, viol)
        self.errors = []
        self.timeouts = []
        self.simtime = 0.0

    def seed_of(self, i):
        return self.vseed * 1_000_003 + i

    def go(self):
        t0 = time.monotonic()
        zs = [Zyg(*zyg_id(self.prop, self.vseed, k), idx=k) for k in range(self.workers)]
        sel = selectors.DefaultSelector()
        for z in zs:
            sel.register(z.p.stdout, selectors.EVENT_READ, z)
        try:
            for z in zs:
                z.wait_ready()
            self.start_s = round(time.monotonic() - t0, 2)
            queues = [[] for _ in zs]
            nxt = [k for k in range(len(zs))]
            live = {}
            stop = False
            ser = 0
            while True:
                if not stop and (time.monotonic() - t0 > self.wall * (1 if self.done >= self.need else 6) or self.hit or len(self.errors) > 3 or len(self.timeouts) > 2):
                    stop = True
                for k, z in enumerate(zs):
                    while z.out < 2:
                        if queues[k] and not (stop and (self.hit or self.errors or len(self.timeouts) > 2)):
                            job = queues[k].pop(0)
                        elif not stop and nxt[k] < self.runs:
                            i = nxt[k]
                            nxt[k] += len(zs)
                            live[i] = {"z": k, "out": [], "viol": []}
                            job = {"id": i, "prop": self.prop, "seed": self.seed_of(i), "tier": self.tier, "phase": 0, "disk": None, "wall": self.prw,
                                   "want_plan": i < 8}
                        else:
                            break
                        ser += 1
                        z.send(job)
                if not any(z.out for z in zs):
                    break
                for key, _ in sel.select(5):
                    z = key.data
                    for r in z.lines():
                        z.out -= 1
                        self.absorb(r, z, live, queues)
            self.elapsed = time.monotonic() - t0
        finally:
            for z in zs:
                z.close()

    def absorb(self, r, z, live, queues):
        i = r["id"]
        st = live[i]
        if r.get("error"):
            if r["error"] == "timeout":
                self.timeouts.append((i, z.idx))
            else:
                self.errors.append((i, r["error"], r.get("tb", "")))
            live.pop(i)
            return
        self.incarnations += 1
        st["out"].append(r)
        st["viol"] += r["viol"]
        if "plan" in r:
            st["plan"] = r["plan"]
        ph = len(st["out"])
        if ph < r["nphases"] and not any(v["class"].startswith("hang") for v in r["viol"]):
            s = r.get("salts") or [0] * r["nphases"]
            k = (st["z"] + s[ph] - s[0]) % len(queues)
            st.setdefault("zs", [st["z"]]).append(k)
            queues[k].append({"id": i, "prop": self.prop, "seed": self.seed_of(i), "tier": self.tier, "phase": ph, "disk": r["disk"], "wall": self.prw,
                              "want_plan": i < 8})
            return
        live.pop(i)
        self.finish(i, st)

    def finish(self, i, st):
        self.done += 1
        viol = st["viol"]
        for r in st["out"]:
            self.steps += r.get("steps", 0)
            self.simtime += r.get("simtime", 0.0)
            for k, v in r["stats"].items():
                self.stats[k] = self.stats.get(k, 0) + v
            self.sites.update(r.get("sites", ()))
            for x in r.get("injected", ()):
                self.injsites.add(x[3])
            if r.get("ratio") and r["ratio"][0] > self.ratio[0]:
                self.ratio = r["ratio"]
        inter = tuple(r.get("inter", 0) for r in st["out"])
        self.inters.add(inter)
        pre = sum(r["stats"].get("preemptions", 0) for r in st["out"])
        flt = sum(v for r in st["out"] for k, v in r["stats"].items() if k.startswith("fault."))
        multi = len(st["out"]) > 1
        if pre or flt or (multi and self.prop in ("C12", "C07", "C04")):
            sig = json.dumps([r.get("schedule") for r in st["out"]] + [[x[1:] for x in r.get("injected", ())] for r in st["out"]] + [[r["stats"].get("ops"), r.get("sig")] for r in st["out"]] + [r["steps"] for r in st["out"]])
            self.nontrivial.add(zlib.crc32(sig.encode()) | (zlib.adler32(sig.encode()) << 32))
        if st.get("plan") and st["plan"].get("compare") or (self.prop == "C12"):
            viol = compare(st["out"], viol)
        if st.get("plan") is not None and len(self.samples) < 3:
            r = st["out"][0]
            self.samples.append({"seed": self.seed_of(i), "phases": [brief(p) for p in st["plan"]["phases"]], "schedule": r.get("schedule", [])[:40], "injected": r.get("injected", [])[:10], "steps": r.get("steps"), "note": r.get("note")})
        if viol and self.hit is None:
            zk = st.get("zs", [st["z"]])
            self.hit = {"seed": self.seed_of(i), "zs": zk, "plan": st.get("plan"), "viol": viol}


def brief(ph):
    s = json.dumps(ph)
    return ph if len(s) < 3000 else s[:3000] + "..."
