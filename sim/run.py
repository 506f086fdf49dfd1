"""Executes one phase of one simulated run against the real library and judges every answer."""
import base64
import collections
import copy
import gc
import pickle
import re
import sys

from sim import engine, gen, model, ndlib, seams
from sim.lib import (
    CLS,
    LOGIC,
    LNAME,
    PARSE,
    build,
    evaluate_pl,
    get_cache_context,
    reset_cache,
    to_node,
    to_string,
)

import os

import lark

LARK = os.path.dirname(os.path.abspath(lark.__file__)) + os.sep
BIG_BUDGET = 2_500_000
MAX_VIOL = 12


class Skip(Exception):
    pass


class Planned(Exception):
    """Raised by an object the caller supplied."""


class RaisingDict(dict):
    """A caller's interpretation that fails at the n-th access."""

    def __init__(self, *a):
        super().__init__(*a)
        self.left = None
        self.who = None

    def _tick(self):
        if self.left is not None and self.who == seams.get_ident():
            self.left -= 1
            if self.left < 0:
                self.left = None
                raise Planned("caller's mapping failed")

    def get(self, *a):
        self._tick()
        return super().get(*a)

    def __getitem__(self, k):
        self._tick()
        return super().__getitem__(k)

    def __contains__(self, k):
        self._tick()
        return super().__contains__(k)

    def __iter__(self):
        self._tick()
        return super().__iter__()

    def keys(self):
        self._tick()
        return super().keys()

    def items(self):
        self._tick()
        return super().items()


class RaisingSet(set):
    left = who = None

    def _tick(self):
        if self.left is not None and self.who == seams.get_ident():
            self.left -= 1
            if self.left < 0:
                self.left = None
                raise Planned("caller's set failed")

    def __contains__(self, k):
        self._tick()
        return super().__contains__(k)

    def __iter__(self):
        self._tick()
        return super().__iter__()


def content(i):
    """An interpretation's content, read without the library and without tripping Raising*."""
    if isinstance(i, dict):
        return {k: dict.__getitem__(i, k) for k in dict.__iter__(i)}
    return frozenset(set.__iter__(i))


def sval(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


class Phase:
    def __init__(self, plan, ph, disk, repo, emit):
        self.plan = plan
        self.prop = plan["prop"]
        self.ph = plan["phases"][ph]
        self.phno = ph
        self.disk = {k: base64.b64decode(v) for k, v in (disk or {}).items()}
        self.repo = repo
        self.emit = emit
        self.v = {}  # variable -> object
        self.n = {}  # variable -> node the object must have
        self.viol = []
        self.h = {}  # canonical node -> hash seen first
        self.txt = {}  # node -> text printed first
        self.stxt = {}  # node -> str() seen first
        self.clock = 0
        self.builds = []  # (start, end, node, must) for the registry rule
        self.resets = []  # (start, end)
        self.answers = []
        self.stats = collections.Counter()
        self.schedules = {}
        self.inter = 0
        self.sites = set()
        self.injected = []
        self.steps = 0
        self.max_ratio = [0, ""]
        self.sim = None
        self.cur_ops = {}

    # ------------------------------------------------------------------ results
    def bad(self, cls, msg, op=None):
        if len(self.viol) < MAX_VIOL:
            self.viol.append({"class": cls, "msg": msg[:600], "op": op, "phase": self.phno})

    def fatal(self, cls, msg):
        ops = {k: v for k, v in self.cur_ops.items()}
        self.bad(cls, msg + " | in progress: " + sval(ops))
        self._collect(self.sim)
        self.emit(self.result())

    def _collect(self, sim):
        if sim is None:
            return
        self.steps += sim.step
        self.stats["switches"] += sim.switches
        self.stats["preemptions"] += sim.preemptions
        self.stats["blocks"] += sim.blocks
        self.sites |= sim.sites
        self.inter = (self.inter * 1000003 ^ sim.interleaving) & 0xFFFFFFFFFFFF
        self.injected += sim.injected
        self.schedules[self.stage] = sim.schedule

    def result(self):
        return {
            "viol": self.viol,
            "steps": self.steps,
            "stats": dict(self.stats),
            "sites": sorted(self.sites)[:400],
            "inter": self.inter,
            "injected": self.injected,
            "schedule": self.schedules.get("threads", []),
            "answers": self.answers,
            "ratio": self.max_ratio,
            "disk": {k: base64.b64encode(v).decode() for k, v in self.disk.items()},
        }

    # ------------------------------------------------------------------ running
    def stage_run(self, name, threads, quiet):
        self.stage = name
        ph = self.ph
        if name == "threads":
            cfg = {"gran": ph.get("gran", "line"), "policy": ph.get("policy", {"kind": "rw", "mean": 50, "seed": 1})}
        else:
            cfg = {"gran": "line", "policy": {"kind": "explicit", "schedule": []}}
        cfg["cap"] = 100_000_000
        prefix = (self.repo + "/pylogics_modalities/",) + tuple(LARK if x == "LARK" else x for x in ph.get("also", ()))
        self.sim = sim = engine.Sim(prefix, cfg, self.fatal)
        sim.on_harness_error = lambda m, tb: self.emit({"error": "harness: " + m, "tb": tb[-3000:], "viol": []})

        def body(ti, ops):
            def run(t):
                if quiet:
                    t.quiet += 1
                for oi, op in enumerate(ops):
                    self.cur_ops[ti] = op
                    self.do(sim, t, ti, oi, op)
                self.cur_ops.pop(ti, None)

            return run

        sim.run([body(i, ops) for i, ops in enumerate(threads)])
        self._collect(sim)

    def run(self):
        ph = self.ph
        sys.setrecursionlimit(9000)
        if ph.get("setup"):
            self.stage_run("setup", [ph["setup"]], True)
        if ph.get("threads"):
            self.stage_run("threads", ph["threads"], bool(ph.get("qt")))
        if ph.get("final"):
            self.stage_run("final", [ph["final"]], bool(ph.get("quiet_final", True)))
        return self.result()

    # ------------------------------------------------------------------ one operation
    def do(self, sim, t, ti, oi, op):
        if op["o"] == "many":  # a long history: the same few operations n times, "%" standing for the turn
            n = op["n"]
            if seams.collisions():
                n = min(n, 8 if op["ops"][0]["o"] == "mkproof" else 50)  # tables are lists there
            for j in range(n):
                for sub in op["ops"]:
                    self.do(sim, t, ti, oi, fill(sub, op.get("from", 0) + j))
            return
        fn = getattr(self, "op_" + op["o"])
        f = op.get("f") or {}
        try:
            prep = fn(op)  # resolves arguments; returns (call, judge)
        except Skip:
            self.stats["skipped"] += 1
            if self.plan.get("answers") and self.stage == "threads":
                self.answers.append([ti, oi, "skipped"])
            return
        call, judge = prep
        inj = f.get("inj")
        budget = op.get("budget") or BIG_BUDGET
        quiet_op = "stack" in f
        self.stats["ops"] += 1
        self.stats["op." + op["o"]] += 1
        ninj = len(sim.injected)
        self.clock += 1
        start = self.clock
        old_limit = None
        arm = self.v.get(op.get("i")) if "raise" in f else None
        if quiet_op:
            t.quiet += 1
            d = 0
            fr = sys._getframe()
            while fr is not None:
                d += 1
                fr = fr.f_back
            old_limit = sys.getrecursionlimit()
        own = sim.op_begin(t, inj, budget, op["o"])
        exc = None
        val = None
        try:
            if quiet_op:
                sys.setrecursionlimit(d + f["stack"])
            if arm is not None and hasattr(arm, "left"):
                arm.left, arm.who = f["raise"], seams.get_ident()
            val = call()
        except engine.SimStop:
            raise
        except BaseException as e:  # noqa
            exc = (type(e).__name__, str(e)[:200] if not isinstance(e, RecursionError) else "", isinstance(e, Planned))
            if "self-deadlock" in exc[1]:
                self.bad("hang.deadlock", "a lock is never released: " + exc[1], op)
        finally:
            if quiet_op:
                sys.setrecursionlimit(old_limit)
            sim.op_end(t)
            used = sim.own(t) - own
        self.clock += 1
        end = self.clock
        if arm is not None:
            if exc is not None and exc[2]:
                self.stats["fault.caller_raise"] += 1
            if hasattr(arm, "left") and arm.who == seams.get_ident():
                arm.left = None
        if quiet_op:
            t.quiet -= 1
            if exc is not None and exc[0] in ("RecursionError", "VisitError"):
                self.stats["fault.stack"] += 1
        fired = any(x[0] == t.tid for x in sim.injected[ninj:])
        if fired:
            self.stats["fault.inject." + inj[1]] += 1
        disturbed = fired or (quiet_op and exc is not None) or (arm is not None and exc is not None and exc[2])
        if op.get("lim") and used > op["lim"] and not disturbed:
            self.bad("hang.budget", f"call took {used} library steps, bound for its size is {op['lim']}", op)
        if op.get("lim") and used / op["lim"] > self.max_ratio[0]:
            self.max_ratio = [round(used / op["lim"], 4), op["o"]]
        t.quiet += 1
        try:
            ans = judge(val, exc, disturbed, start, end)
        finally:
            t.quiet -= 1
        if self.plan.get("answers") and self.stage == "threads":
            self.answers.append([ti, oi, ans if exc is None else "exc " + exc[0]])

    # ------------------------------------------------------------------ argument access
    def var(self, name):
        if name not in self.v:
            raise Skip()
        return self.v[name]

    def put(self, op, val, node=None):
        d = op.get("d")
        if d is not None:
            self.v[d] = val
            if node is not None:
                self.n[d] = node
            else:
                self.n.pop(d, None)

    def unexpected(self, cls, op, exc, disturbed):
        """The call raised; fine only when it was disturbed."""
        if not disturbed:
            self.bad(cls + ".raise", f"raised {exc[0]}: {exc[1]}", op)

    def check_formula(self, cls, op, val, node):
        try:
            got = to_node(val)
        except Exception as e:
            self.bad(cls + ".wrong", f"returned {sval(val)}, not a formula ({type(e).__name__}), expected {sval(node)}", op)
            return False
        if got != node:
            self.bad(cls + ".wrong", f"returned {sval(got)}, expected {sval(node)}", op)
            return False
        return True

    def note_build(self, start, end, nodes, must):
        if self.plan.get("registry"):
            for x in nodes:
                self.builds.append((start, end, x, must))

    # ------------------------------------------------------------------ parsing and building
    def op_parse(self, op):
        lg = op["lg"]
        text = op["text"]

        def judge(val, exc, dist, start, end):
            if op["term"] is None:
                self.note_build(start, end, [("atom", lg, x) for x in re.findall(r'[a-z_][A-Za-z0-9_-]*|"[^"]*"', text)], False)
                if exc is None:
                    self.bad("parse.accept", f"text outside the language was accepted: {sval(val)}", op)
                return "rejected"
            sink = []
            node = model.node(op["term"], lg, sink)
            if exc is not None:
                self.unexpected("parse", op, exc, dist)
                self.note_build(start, end, sink, False)
                return None
            self.note_build(start, end, sink, True)
            if self.check_formula("parse", op, val, node):
                self.put(op, val, node)
            return sval(node)

        return (lambda: PARSE[lg](text)), judge

    def op_build(self, op):
        lg, term = op["lg"], op["term"]

        def judge(val, exc, dist, start, end):
            sink = []
            node = model.node(term, lg, sink)
            if exc is not None:
                self.unexpected("build", op, exc, dist)
                self.note_build(start, end, sink, False)
                return None
            self.note_build(start, end, sink, True)
            if self.check_formula("build", op, val, node):
                self.put(op, val, node)
            return sval(node)

        return (lambda: build(term, lg, op.get("ops", False))), judge

    def op_comb(self, op):
        args = [self.var(a) for a in op["a"]]
        if any(a not in self.n for a in op["a"]):
            raise Skip()
        k = op["k"]

        def call():
            if k == "rshift":
                return args[0] >> args[1]
            if op.get("ops"):
                if k == "not":
                    return ~args[0]
                if k == "and" and len(args) == 2:
                    return args[0] & args[1]
                if k == "or" and len(args) == 2:
                    return args[0] | args[1]
            return CLS[k](*args)

        nodes = [self.n[a] for a in op["a"]]

        def judge(val, exc, dist, start, end):
            node = model.apply(k, nodes, None)
            fresh = not any(node in model.subnodes(x) for x in nodes) and node[0] not in ("T", "F")
            if exc is not None:
                self.unexpected("build", op, exc, dist)
                self.note_build(start, end, [node] + nodes, False)
                return None
            self.note_build(start, end, nodes, False)
            self.note_build(start, end, [node], fresh)
            if self.check_formula("build", op, val, node):
                self.put(op, val, node)
            return sval(node)

        return call, judge

    def op_badbuild(self, op):
        k = op["k"]
        a = self.var(op["a"])

        def call():
            if k == "one":
                return CLS[op["c"]](a)
            if k == "zero":
                return CLS[op["c"]]()
            if k == "str":
                return CLS[op["c"]](a, "zz")
            if k == "str0":
                return CLS[op["c"]]("zz", a)
            if k == "none":
                return CLS[op["c"]](a, None)
            if k == "unstr":
                return CLS[op["c"]]("zz")
            if k == "name":
                from sim.lib import ATOM

                return ATOM[op["lg"]](op["name"])
            if k == "dia":
                return CLS[op["c"]](a, a)
            raise ValueError(k)

        nodes = [self.n[op["a"]]] if op["a"] in self.n else []

        def judge(val, exc, dist, start, end):
            self.note_build(start, end, nodes, False)
            return "rejected" if exc is not None else "built"

        return call, judge

    # ------------------------------------------------------------------ hash and equality
    def node_of(self, name):
        if name not in self.n:
            raise Skip()
        return self.n[name]

    def note_hash(self, op, node, h):
        c = model.canon(node)
        w = self.h.setdefault(c, h)
        if w != h:
            self.bad("hash.changed", f"hash of {sval(node)} is {h}, was {w} for the same or an equal formula", op)

    def op_hash(self, op):
        x, node = self.var(op["v"]), self.node_of(op["v"])

        def judge(val, exc, dist, start, end):
            if exc is not None:
                return self.unexpected("hash", op, exc, dist)
            if type(val) is not int:
                self.bad("hash.wrong", f"hash is {sval(val)}", op)
            else:
                self.note_hash(op, node, val)

        return (lambda: x.__hash__() if op.get("dunder") else seams.real_hash(x)), judge

    def op_eq(self, op):
        x, y = self.var(op["a"]), self.var(op["b"])
        want = model.eq(self.node_of(op["a"]), self.node_of(op["b"]))

        def judge(val, exc, dist, start, end):
            if exc is not None:
                return self.unexpected("eq", op, exc, dist)
            if val is not want:
                self.bad("eq.wrong", f"{sval(self.n[op['a']])} {'!=' if op.get('ne') else '=='} {sval(self.n[op['b']])} gave {sval(val)}", op)
            return val

        if op.get("ne"):
            want = not want
            return (lambda: x != y), judge
        return (lambda: x == y), judge

    def op_mkset(self, op):
        xs = [self.var(a) for a in op["vs"]]
        nodes = [self.node_of(a) for a in op["vs"]]

        def judge(val, exc, dist, start, end):
            if exc is not None:
                return self.unexpected("lookup", op, exc, dist)
            want = len({model.canon(n) for n in nodes})
            if len(val) != want:
                self.bad("lookup.wrong", f"a set of {len(nodes)} formulas has {len(val)} elements instead of {want}", op)
            else:
                self.v[op["d"]] = val
                self.n[op["d"]] = ("SET", tuple(nodes))
            return len(val)

        if op.get("dict"):
            return (lambda: {x: i for i, x in enumerate(xs)}), judge
        return (lambda: set(xs)), judge

    def op_inset(self, op):
        x, s = self.var(op["v"]), self.var(op["s"])
        node = self.node_of(op["v"])
        members = self.node_of(op["s"])[1]
        want = any(model.eq(node, m) for m in members)

        def judge(val, exc, dist, start, end):
            if exc is not None:
                return self.unexpected("lookup", op, exc, dist)
            if val is not want:
                self.bad("lookup.wrong", f"{sval(node)} in a set that {'contains' if want else 'does not contain'} it gave {val}", op)
            return val

        if isinstance(s, dict):
            return (lambda: s.get(x, "missing") != "missing"), judge
        return (lambda: x in s), judge

    # ------------------------------------------------------------------ printing
    def note_text(self, op, node, text, store):
        if type(text) is not str:
            self.bad("print.wrong", f"printed {sval(text)}", op)
            return
        w = store.setdefault(node, text)
        if w != text:
            self.bad("print.changed", f"text of {sval(node)} is {sval(text)}, was {sval(w)}", op)

    def op_print(self, op):
        x, node = self.var(op["v"]), self.node_of(op["v"])

        def judge(val, exc, dist, start, end):
            if exc is not None:
                return self.unexpected("print", op, exc, dist)
            self.note_text(op, node, val, self.txt)
            return val

        return (lambda: to_string(x)), judge

    def op_str(self, op):
        x, node = self.var(op["v"]), self.node_of(op["v"])

        def judge(val, exc, dist, start, end):
            if exc is not None:
                return self.unexpected("print", op, exc, dist)
            self.note_text(op, node, val, self.stxt)
            return val

        return (lambda: str(x)), judge

    def op_repr(self, op):
        x = self.var(op["v"])

        def judge(val, exc, dist, start, end):
            if exc is not None:
                return self.unexpected("print", op, exc, dist)

        return (lambda: repr(x)), judge

    def op_reparse(self, op):
        """Parse the text printed for v (looked up among the texts, or on disk)."""
        lg = op["lg"]
        if "slot" in op:
            if op["slot"] not in self.disk:
                raise Skip()
            text = self.disk[op["slot"]].decode()
            node = model.node(op["term"], lg)
        else:
            node = self.node_of(op["v"])
            text = self.txt.get(node)
        if text is None:
            raise Skip()

        def judge(val, exc, dist, start, end):
            if exc is not None:
                if not dist:
                    self.bad("print.unreadable", f"printed text {sval(text)} of {sval(node)} is rejected: {exc[0]} {exc[1]}", op)
                return
            try:
                got = to_node(val)
            except Exception as e:
                got = repr(e)
            if got != node:
                self.bad("print.unreadable", f"printed text {sval(text)} of {sval(node)} reads back as {sval(got)}", op)
            else:
                self.put(op, val, node)
                t2 = to_string(val)
                self.note_text(op, node, t2, self.txt)
                if t2 != text:
                    self.bad("print.changed", f"text of {sval(node)} is {sval(t2)}, was {sval(text)} in the interpreter before", op)

        return (lambda: PARSE[lg](text)), judge

    def op_save(self, op):
        """Write the text printed for v to disk."""
        node = self.node_of(op["v"])
        if node not in self.txt:
            raise Skip()

        def call():
            self.disk[op["slot"]] = self.txt[node].encode()

        return call, lambda *a: None

    # ------------------------------------------------------------------ evaluation
    def op_mkint(self, op):
        kind, spec = op["kind"], op["spec"]

        def call():
            if kind == "set":
                return set(spec)
            if kind == "rset":
                return RaisingSet(spec)
            if kind == "rdict":
                return RaisingDict(spec)
            if kind == "ddict":
                return collections.defaultdict(bool, spec)
            return dict(spec)

        def judge(val, exc, dist, start, end):
            self.v[op["d"]] = val

        return call, judge

    def op_mut(self, op):
        x = self.var(op["i"])

        def call():
            for e in op["edits"]:
                if isinstance(x, dict):
                    if e[1] is None:
                        x.pop(e[0], None)
                    else:
                        x[e[0]] = e[1]
                elif e[1]:
                    x.add(e[0])
                else:
                    x.discard(e[0])

        return call, lambda *a: None

    def op_drop(self, op):
        def call():
            for d in op["vs"]:
                self.v.pop(d, None)
                self.n.pop(d, None)
            if op.get("gc"):
                gc.collect()

        return call, lambda *a: None

    def op_eval(self, op):
        x, i = self.var(op["v"]), self.var(op["i"])
        node = self.node_of(op["v"])
        before = content(i)
        true = {k for k, b in before.items() if b} if isinstance(before, dict) else before

        def judge(val, exc, dist, start, end):
            after = content(i)
            if after != before:
                self.bad("eval.modifies", f"evaluation changed the interpretation from {sval(before)} to {sval(after)}", op)
            if exc is not None:
                return self.unexpected("eval", op, exc, dist)
            want = model.evaluate(node, true)
            if bool(val) is not want:
                self.bad("eval.wrong", f"{sval(node)} under {sval(before)} evaluated to {sval(val)}, expected {want}", op)
            return bool(val)

        return (lambda: evaluate_pl(x, i)), judge

    def op_node(self, op):
        """Read a formula back: nothing may have changed it."""
        x, node = self.var(op["v"]), self.node_of(op["v"])

        def judge(val, exc, dist, start, end):
            if exc is not None:
                return self.unexpected("node", op, exc, dist)
            if val != node:
                self.bad("node.changed", f"formula is now {sval(val)}, was {sval(node)}", op)

        return (lambda: to_node(x)), judge

    def op_probe(self, op):
        """Everything that is known about every formula variable still holds."""

        def call():
            return None

        def judge(val, exc, dist, start, end):
            for name in sorted(self.n):
                node = self.n[name]
                if node[0] in ("SET", "FOL"):
                    continue
                x = self.v[name]
                try:
                    if to_node(x) != node:
                        self.bad("node.changed", f"{name} is now {sval(to_node(x))}, was {sval(node)}", op)
                    self.note_hash(op, node, seams.real_hash(x))
                    if model.logic(node) != "re":
                        self.note_text(op, node, to_string(x), self.txt)
                    if not (x == x):
                        self.bad("eq.wrong", f"{sval(node)} is not equal to itself", op)
                except Exception as e:
                    self.bad("probe.raise", f"using {sval(node)} raised {type(e).__name__}: {e}", op)

        return call, judge

    # ------------------------------------------------------------------ serialization
    def _state(self, x, node, op, where):
        """The original must be as it was."""
        try:
            if to_node(x) != node:
                self.bad("pickle.original", f"{where} changed the original to {sval(to_node(x))} from {sval(node)}", op)
            self.note_hash(op, node, seams.real_hash(x))
            if model.logic(node) != "re":
                self.note_text(op, node, to_string(x), self.txt)
        except Exception as e:
            self.bad("pickle.original", f"after {where} using the original raised {type(e).__name__}: {e}", op)

    def op_dump(self, op):
        """Pickle formulas in a container to a disk slot."""
        xs = [self.var(a) for a in op["vs"]]
        nodes = [self.node_of(a) for a in op["vs"]]
        shape = op.get("shape", "one")

        def call():
            if shape == "one":
                o = xs[0]
            elif shape == "list":
                o = xs + xs[:1]
            elif shape == "set":
                o = set(xs)
            elif shape == "fset":
                o = (frozenset(xs), xs[0])
            else:
                o = {x: k for k, x in enumerate(xs)}
            return (pickle._dumps if op.get("py") else pickle.dumps)(o, op["proto"])

        def judge(val, exc, dist, start, end):
            for x, n in zip(xs, nodes):
                self._state(x, n, op, "dumping")
            if exc is not None:
                return self.unexpected("pickle", op, exc, dist)
            self.disk[op["slot"]] = bytes(val)

        return call, judge

    def op_load(self, op):
        if op["slot"] not in self.disk:
            raise Skip()
        data = self.disk[op["slot"]]
        cut = op.get("cut")
        if cut is not None:
            data = data[: int(cut * len(data))] if cut < 1 else data[:-1]
        nodes = [model.node(t, lg) for lg, t in op["terms"]]
        lgs = [lg for lg, t in op["terms"]]
        shape = op.get("shape", "one")

        def call():
            return pickle.loads(data)

        def judge(val, exc, dist, start, end):
            if cut is not None:
                if exc is None:
                    self.bad("pickle.torn", f"a file cut to {len(data)} bytes loaded as {sval(val)}", op)
                else:
                    self.stats["fault.torn_file"] += 1
                return
            if exc is not None:
                return self.unexpected("pickle", op, exc, dist)
            try:
                fresh = [build(t, lg) for lg, t in op["terms"]]
                if shape == "one":
                    got = [val]
                elif shape == "list":
                    got = val[:-1]
                    if val[-1] != val[0]:
                        self.bad("pickle.wrong", "a shared formula came back as two different ones", op)
                elif shape in ("set", "fset"):
                    s = val
                    if shape == "fset":
                        s, first = val
                        if first not in s:
                            self.bad("pickle.lookup", "a loaded formula is not found in the set it was saved in", op)
                    if len(s) != len({model.canon(n) for n in nodes}):
                        self.bad("pickle.wrong", f"loaded set has {len(s)} elements", op)
                    for f, n in zip(fresh, nodes):
                        if f not in s:
                            self.bad("pickle.lookup", f"{sval(n)} built anew is not found in the loaded set", op)
                    got = None
                else:
                    got = None
                    for k, f in enumerate(fresh):
                        last = max(j for j, n in enumerate(nodes) if model.eq(n, nodes[k]))
                        if val.get(f) != last:
                            self.bad("pickle.lookup", f"{sval(nodes[k])} built anew finds {val.get(f)} in the loaded dictionary, not {last}", op)
                if got is not None:
                    for j, (x, f, n, lg) in enumerate(zip(got, fresh, nodes, lgs)):
                        if to_node(x) != n:
                            self.bad("pickle.wrong", f"loaded {sval(to_node(x))}, saved {sval(n)}", op)
                            continue
                        if not (x == f) or not (f == x) or (x != f):
                            self.bad("pickle.wrong", f"loaded {sval(n)} differs from the one built anew", op)
                        self.note_hash(op, n, seams.real_hash(f))
                        self.note_hash(op, n, seams.real_hash(x))
                        if x not in {f} or f not in {x: 1}:
                            self.bad("pickle.lookup", f"loaded {sval(n)} is not found by the one built anew", op)
                        if lg != "re":
                            self.note_text(op, n, to_string(f), self.txt)
                            self.note_text(op, n, to_string(x), self.txt)
                        if op.get("d") and j == 0:
                            self.put(op, x, n)
            except Exception as e:
                self.bad("pickle.raise", f"using the loaded formula raised {type(e).__name__}: {e}", op)

        return call, judge

    def op_copy(self, op):
        x, node = self.var(op["v"]), self.node_of(op["v"])
        how = op["how"]

        def call():
            if how == "copy":
                return copy.copy(x)
            if how == "deep":
                return copy.deepcopy(x)
            return pickle.loads(pickle.dumps(x, op.get("proto", 2)))

        def judge(val, exc, dist, start, end):
            if not op.get("lazy"):
                self._state(x, node, op, how)
            if exc is not None:
                return self.unexpected("pickle", op, exc, dist)
            try:
                if to_node(val) != node:
                    self.bad("pickle.wrong", f"{how} gave {sval(to_node(val))}, original is {sval(node)}", op)
                    return
                if not op.get("lazy"):
                    if not (val == x) or not (x == val):
                        self.bad("pickle.wrong", f"{how} of {sval(node)} is not equal to it", op)
                    self.note_hash(op, node, seams.real_hash(val))
                    if x not in {val}:
                        self.bad("pickle.lookup", f"{how} of {sval(node)} is not found by the original", op)
                    if model.logic(node) != "re":
                        self.note_text(op, node, to_string(val), self.txt)
                self.put(op, val, node)
            except Exception as e:
                self.bad("pickle.raise", f"using the {how} raised {type(e).__name__}: {e}", op)

        return call, judge

    # ------------------------------------------------------------------ registry
    def op_reset(self, op):
        def judge(val, exc, dist, start, end):
            if exc is not None:
                return self.unexpected("registry", op, exc, dist)
            self.resets.append((start, end))

        return reset_cache, judge

    def _entries(self):
        return [(lg, f) for lg, tbl in list(get_cache_context().items()) for f in list(tbl)]

    def op_ctx(self, op):
        """Registry contents against the interval rule; nothing is running."""

        def judge(val, exc, dist, start, end):
            if exc is not None:
                return self.unexpected("registry", op, exc, dist)
            have = {}
            for lg, f in val:
                try:
                    n = to_node(f)
                    flg = f.logic
                except Exception as e:
                    self.bad("registry.junk", f"the registry holds a broken entry ({type(e).__name__}: {e})", op)
                    continue
                if lg != flg:
                    self.bad("registry.logic", f"{sval(n)} is registered under {lg}", op)
                if n[0] in model.COMM + ("implies", "U", "R", "W", "M", "S", "T_", "seq") and len(n[1]) < 2:
                    self.bad("registry.junk", f"rejected formula {sval(n)} is registered", op)
                c = (lg, model.canon(n))
                have[c] = have.get(c, 0) + 1
            for c, k in have.items():
                if k > 1:
                    self.bad("registry.twice", f"{sval(c)} is registered {k} times", op)
            last_end = max((e for s, e in self.resets), default=0)
            canons = {c for _, c in have}
            for s, e, n, must in self.builds:
                if must and s > last_end and n[0] not in ("T", "F"):
                    if model.canon(n) not in canons:
                        self.bad("registry.missing", f"{sval(n)} was built after the last reset and is not registered", op)
            if self.resets:
                last_start = max(s for s, e in self.resets)
                old, new = set(), set()
                for s, e, n, must in self.builds:
                    (old if e < last_start else new).update(model.atoms(n))
                stale = old - new
                for lg, f in val:
                    try:
                        if stale & model.atoms(to_node(f)):
                            self.bad("registry.stale", f"{sval(to_node(f))} was built before a reset, not after, and is registered", op)
                    except Exception:
                        pass
            return sorted(have.values())

        return self._entries, judge

    def op_ctxempty(self, op):
        def call():
            reset_cache()
            return self._entries()

        def judge(val, exc, dist, start, end):
            if exc is not None:
                return self.unexpected("registry", op, exc, dist)
            if val:
                self.bad("registry.stale", f"{len(val)} formulas are registered right after a reset, e.g. {sval(val[0])}", op)
            self.resets.append((start, end))

        return call, judge

    def op_rebuild(self, op):
        """Rebuilding an equal formula adds no entry."""
        lg, term = op["lg"], op["term"]

        def call():
            build(term, lg)
            a = len(self._entries())
            build(term, lg)
            b = len(self._entries())
            if lg != "re":
                PARSE[lg](to_string(build(term, lg)))
            return a, b

        def judge(val, exc, dist, start, end):
            if exc is not None:
                return self.unexpected("build", op, exc, dist)
            sink = []
            model.node(term, lg, sink)
            self.note_build(start, end, sink, True)
            if val[0] != val[1]:
                self.bad("registry.twice", f"rebuilding an equal formula grew the registry from {val[0]} to {val[1]} entries", op)
            return val[1] - val[0]

        return call, judge

    def op_ctxlist(self, op):
        """Registry contents as an answer (for comparison between interpreters)."""

        def judge(val, exc, dist, start, end):
            if exc is not None:
                return self.unexpected("registry", op, exc, dist)
            out = []
            for lg, f in val:
                try:
                    out.append(LNAME.get(lg, str(lg)) + " " + sval_canon(to_node(f)))
                except Exception:
                    out.append(str(lg) + " " + type(f).__name__ + " " + str(f))
            return sorted(out)

        return self._entries, judge

    # ------------------------------------------------------------------ first-order logic and natural deduction
    def op_mkproof(self, op):
        proof = op["proof"]
        if op.get("ren") is not None:  # the same proof about other predicates
            proof = rename(proof, op["ren"])
        raw = ndlib.flatten(proof, ndlib.Build())
        snap = ndlib.snap(raw)

        def call():
            return ndlib.ND.Proof(raw)

        def judge(val, exc, dist, start, end):
            if ndlib.snap(raw) != snap:
                self.bad("alias.container", "building a proof changed the list passed in", op)
            if exc is not None:
                return self.unexpected("nd", op, exc, dist)
            self.v[op["d"]] = val
            self.v[op["d"] + "#"] = (ndlib.snap(val), op["ok"])

        return call, judge

    def op_mkck(self, op):
        def judge(val, exc, dist, start, end):
            if exc is not None:
                return self.unexpected("nd", op, exc, dist)
            self.v[op["d"]] = val

        return ndlib.ND, judge

    def op_chk(self, op):
        p = self.var(op["v"])
        snap, ok = self.var(op["v"] + "#")
        ck = self.var(op["ck"]) if op.get("ck") else None

        def judge(val, exc, dist, start, end):
            if ndlib.snap(p) != snap:
                self.bad("nd.modifies", "checking changed the proof", op)
            if ok:
                if exc is not None:
                    self.unexpected("nd", op, exc, dist)
                elif not val:
                    self.bad("nd.reject", f"a proof whose every step is right was rejected ({val!r})", op)
            elif exc is None and val:
                self.bad("nd.accept", "a proof with a wrong step was accepted", op)
            return "accepted" if exc is None and val else "not accepted"

        return (lambda: ck.check_proof(p) if ck is not None else ndlib.ND.check(p)), judge

    def op_fol(self, op):
        """Build FOL objects from lists the caller keeps: {"k": pred|func|quant|call|and, ...}"""
        k = op["k"]
        if k == "list":
            xs = [self.var(a) for a in op["a"]]
            return (lambda: list(xs)), (lambda val, *a: self.v.__setitem__(op["d"], val))
        if k == "var":
            return (lambda: ndlib.fol.Variable(op["name"])), (lambda val, *a: self.v.__setitem__(op["d"], val))
        if k == "const":
            return (lambda: ndlib.fol.Constant(op["name"])), (lambda val, *a: self.v.__setitem__(op["d"], val))
        lst = self.var(op["l"]) if "l" in op else None
        before = list(lst) if isinstance(lst, list) else None
        shared = op.get("shared")

        def call():
            if k == "pred":
                return ndlib.fol.Predicate(op["name"], lst)
            if k == "pred0":
                return ndlib.fol.Predicate(op["name"])
            if k == "func":
                return ndlib.fol.Function(op["name"], lst)
            if k == "predcall":
                return self.var(op["p"])(*lst)
            if k == "quant":
                return (ndlib.fol.ForAll if op["q"] == "all" else ndlib.fol.Exists)(self.var(op["x"]), self.var(op["p"]))
            if k == "nary":
                return CLS[op["c"]](*lst)
            raise ValueError(k)

        if k == "quant":
            self.var(op["x"]), self.var(op["p"])
        if k == "predcall":
            self.var(op["p"])

        def judge(val, exc, dist, start, end):
            if exc is not None:
                return self.unexpected("build", op, exc, dist)
            if before is not None and not shared and (len(lst) != len(before) or any(a is not b for a, b in zip(lst, before))):
                self.bad("alias.container", "the call changed the list passed in", op)
            d = op["d"]
            self.v[d] = val
            try:
                fp = self.fingerprint(val)
            except Exception as e:
                return self.bad("alias.raise", f"reading a new formula raised {type(e).__name__}: {e}", op)
            self.v[d + "#"] = fp
            if not shared:
                want = None
                if k in ("pred", "func"):
                    want = op["name"] + "(" + ", ".join(str(x) for x in lst) + ")" if lst or k == "func" else op["name"]
                elif k == "pred0":
                    want = op["name"]
                if want is not None and fp[0] != want:
                    self.bad("alias.text", f"a new formula prints as {fp[0]!r}, expected {want!r}", op)
            return fp[0]

        return call, judge

    def fingerprint(self, f):
        ops = getattr(f, "operands", None)
        if ops is None:
            ops = (f.argument,) if hasattr(f, "argument") else ()
        kids = tuple(self.fingerprint(x) if hasattr(x, "operands") or hasattr(x, "argument") else str(x) for x in ops)
        # tuple of identities keeps "same operands" strict without holding the collection itself
        return (str(f), kids, tuple(id(x) for x in ops), seams.real_hash(f))

    def op_fpcheck(self, op):
        x, fp = self.var(op["v"]), self.var(op["v"] + "#")

        def judge(val, exc, dist, start, end):
            if exc is not None:
                return self.unexpected("alias", op, exc, dist)
            if val != fp:
                self.bad("alias.changed", f"formula now reads {sval(val[:2])}, was {sval(fp[:2])}", op)
            elif not (x == x):
                self.bad("alias.changed", "formula is no longer equal to itself", op)

        return (lambda: self.fingerprint(x)), judge

    def op_mutlist(self, op):
        """The caller changes a list he passed in, or a collection a formula handed out."""
        if "l" in op:
            tgt = self.var(op["l"])
        else:
            x = self.var(op["of"])
            for _ in range(op.get("up", 0)):
                kids = getattr(x, "operands", None)
                if kids and len(kids):
                    x = kids[0]
            tgt = getattr(x, "operands", None)
        filler = self.v.get(op.get("x"))

        def call():
            if isinstance(tgt, list):
                k = op["how"]
                if k == "append":
                    tgt.append(filler)
                elif k == "clear":
                    tgt.clear()
                elif k == "pop":
                    if tgt:
                        tgt.pop(0)
                elif k == "set":
                    if tgt:
                        tgt[-1] = filler
                elif k == "rev":
                    tgt.reverse()
                self.stats["fault.mutation"] += 1
            elif isinstance(tgt, (set, dict)):
                tgt.clear()
                self.stats["fault.mutation"] += 1

        return call, lambda *a: None

    def op_lcheck(self, op):
        """A list the caller owns holds exactly what he put in."""
        l = self.var(op["l"])
        want = [self.var(a) for a in op["a"]]

        def judge(val, exc, dist, start, end):
            if len(l) != len(want) or any(a is not b for a, b in zip(l, want)):
                self.bad("alias.container", f"the caller's list now holds {sval(l)}", op)

        return (lambda: None), judge


def rename(x, tail):
    if isinstance(x, dict):
        return {k: rename(v, tail) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) > 1 and x[0] in ("P", "pa") and isinstance(x[1], str):
            return [x[0], x[1] + tail] + [rename(y, tail) for y in x[2:]]
        return [rename(y, tail) for y in x]
    return x


def fill(x, j):
    """A copy of x with "%" in strings replaced by j, and [k, "+", m] by k + j * m."""
    if isinstance(x, str):
        return x.replace("%", str(j)) if "%" in x else x
    if isinstance(x, list):
        if len(x) == 3 and x[1] == "+":
            return x[0] + j * x[2]
        return [fill(y, j) for y in x]
    if isinstance(x, dict):
        return {fill(k, j): fill(v, j) for k, v in x.items()}
    return x


def sval_canon(n):
    """A deterministic text of a canonical node (sets sorted)."""

    def go(c):
        if isinstance(c, frozenset):
            return "{" + ",".join(sorted(go(x) for x in c)) + "}"
        if isinstance(c, tuple):
            return "(" + ",".join(go(x) for x in c) + ")"
        return str(c)

    return go(model.canon(n))


def run_phase(plan, ph, disk, repo, emit):
    p = Phase(plan, ph, disk, repo, emit)
    return p.run()
