"""The simulator: real threads, one running at a time, switched only where the simulator says.

A run is a pure function of its plan (a JSON object) and the code under test:
  plan = {"threads": [[op, ...], ...], "gran": "line"|"opcode", "policy": {...}, ...}
Every switch actually taken is recorded in `schedule` as [step, tid]; policy
{"kind": "explicit", "schedule": [...]} replays it.
"""
import ast
import random
import sys
import zlib

from sim import seams

_start_new_thread = seams._thread.start_new_thread

EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "RecursionError": RecursionError,
    "SystemExit": SystemExit,
}


class SimStop(BaseException):
    """Raised inside a thread when the run is being given up."""


class Thread:
    def __init__(self, tid, body):
        self.tid = tid
        self.body = body
        self.baton = seams.real_allocate_lock()
        self.baton.acquire()
        self.done = False
        self.blocked_on = None
        self.held = 0
        self.acc = 0  # own steps before the last resume
        self.resume = 0  # global step at the last resume
        self.inject = None  # [own step at which to raise, exception name]
        self.prio = 0
        self.quiet = 0
        self.budget = None  # own step at which the call in progress is declared runaway


def _no_trace(frame, event, arg):
    return None


class Sim:
    def __init__(self, repo_prefix, plan, on_fatal):
        self.prefix = repo_prefix  # a path prefix or a tuple of them; exceptions are injected under the first only
        self.inj_prefix = repo_prefix if isinstance(repo_prefix, str) else repo_prefix[0]
        self.plan = plan
        self.on_fatal = on_fatal  # called with (class, message) for deadlock / runaway; must not return
        self.step = 0
        self.next_evt = 1 << 62
        self.threads = []
        self.cur = None
        self.by_ident = {}
        self.main = seams.real_allocate_lock()
        self.main.acquire()
        self.schedule = []
        self.switches = 0
        self.preemptions = 0
        self.injected = []  # [tid, own step, exc, file:line]
        self.blocks = 0
        self.sites = set()
        self.interleaving = 0
        self.cap = plan.get("cap", 3_000_000)
        self.gran = plan.get("gran", "line")
        pol = plan.get("policy", {"kind": "rw", "mean": 50, "seed": 1})
        self.pol = pol
        self.kind = pol["kind"]
        self.rng = random.Random(pol.get("seed", 0))
        self.site_mode = self.kind == "site"
        self._excl = {}
        self._next_switch = 1 << 62
        self._sidx = 0
        self._tracecache = {}
        self._site_hot = {}
        self._sys_settrace = sys.settrace
        self._make_trace()

    # ---- tracing -------------------------------------------------------
    def _make_trace(self):
        sim = self
        prefix = self.prefix
        cache = self._tracecache
        opc = self.gran == "opcode"
        site_mode = self.site_mode
        hot = self._site_hot
        pol_seed = self.pol.get("seed", 0)
        dens = self.pol.get("dens", 8)

        def stepper(want, opc):
            def local(frame, event, arg):
                if event == want:
                    t = sim.cur
                    if t.quiet or frame.f_lineno is None:
                        return local
                    sim.step = s = sim.step + 1
                    if s >= sim.next_evt:
                        sim.slow(frame, event)
                    elif site_mode:
                        key = (frame.f_code, frame.f_lasti if opc else frame.f_lineno)
                        h = hot.get(key)
                        if h is None:
                            co = frame.f_code
                            off = frame.f_lasti if opc else frame.f_lineno - co.co_firstlineno
                            h = zlib.crc32(f"{pol_seed}/{co.co_qualname}/{off}".encode()) % dens == 0
                            hot[key] = h
                        if h and sim.rng.random() < 0.5:
                            sim._switch_random(frame)
                elif event == "line" and opc and frame.f_lineno is not None:
                    t = sim.cur
                    if t.inject is not None and not t.quiet and sim.step >= sim.next_evt:
                        sim.slow(frame, event)
                return local

            return local

        by_line = stepper("line", False)
        by_opcode = stepper("opcode", True)

        def glob(frame, event, arg):
            co = frame.f_code
            f = cache.get(co)
            if f is None:
                f = cache[co] = co.co_filename.startswith(prefix)
            if not f or sim.cur.quiet:
                return None
            if opc and not co.co_flags & 0x2A0:  # generators: see slow()
                frame.f_trace_opcodes = True
                return by_opcode
            return by_line

        self._glob = glob

    def trace_on(self):
        self._sys_settrace(self._glob)

    def trace_off(self):
        self._sys_settrace(None)

    # ---- switching -----------------------------------------------------
    def current_thread(self):
        return self.by_ident.get(seams.get_ident())

    def own(self, t):
        return t.acc + (self.step - t.resume) if t is self.cur else t.acc

    def _recompute(self):
        n = self._next_switch
        t = self.cur
        if t is not None:
            if t.inject is not None:
                n = min(n, t.inject[0] - t.acc + t.resume)
            if t.budget is not None:
                n = min(n, t.budget - t.acc + t.resume)
        n = min(n, self.cap)
        self.next_evt = n

    def _plan_next(self):
        k = self.kind
        if k == "rw":
            self._next_switch = self.step + 1 + int(self.rng.expovariate(1.0 / self.pol["mean"]))
        elif k == "pct":
            pts = self._pts
            self._next_switch = pts[self._sidx] if self._sidx < len(pts) else 1 << 62
        elif k == "explicit":
            s = self.pol["schedule"]
            self._next_switch = s[self._sidx][0] if self._sidx < len(s) else 1 << 62
        else:
            self._next_switch = 1 << 62

    def runnable(self):
        return [t for t in self.threads if not t.done and t.blocked_on is None]

    def _choose(self, cands):
        """Who runs when the current thread cannot (ended, blocked)."""
        k = self.kind
        if k == "explicit":
            s = self.pol["schedule"]
            if self._sidx < len(s) and s[self._sidx][0] <= self.step:
                tid = s[self._sidx][1]
                self._sidx += 1
                self._plan_next()
                for t in cands:
                    if t.tid == tid:
                        return t
            return cands[0]
        if k == "pct":
            return max(cands, key=lambda t: t.prio)
        return self.rng.choice(cands) if len(cands) > 1 else cands[0]

    def _to(self, t, frame=None):
        me = self.cur
        if t is me:
            self._recompute()
            return
        self.schedule.append([self.step, t.tid])
        self.switches += 1
        if frame is not None:
            self.preemptions += 1
            site = f"{frame.f_code.co_qualname}:{frame.f_lineno - frame.f_code.co_firstlineno}"
            self.sites.add(site)
            self.interleaving = zlib.crc32(f"{me.tid}>{t.tid}@{site}".encode(), self.interleaving)
        me.acc += self.step - me.resume
        self.cur = t
        t.resume = self.step
        self._recompute()
        t.baton.release()
        if not me.done:
            me.baton.acquire()
        if self._stopping and not me.done:
            raise SimStop()

    _stopping = False

    def slow(self, frame, event):
        try:
            self._slow(frame, event)
        except BaseException as e:
            if e is self._raising:
                self._raising = None
                # CPython 3.12.3 dereferences a null trace function when a frame that asks for opcode events
                # runs on after an exception left its trace function, so no frame may ask any more
                f = frame
                while f is not None:
                    f.f_trace_opcodes = False
                    f = f.f_back
                raise
            import traceback

            self.on_harness_error(f"{type(e).__name__}: {e}", traceback.format_exc())

    _raising = None
    on_harness_error = None

    def _slow(self, frame, event):
        t = self.cur
        if self.step >= self.cap:
            self.on_fatal("hang.steps", f"run exceeded {self.cap} library steps")
        own = self.own(t)
        if t.budget is not None and own >= t.budget:
            self.on_fatal("hang.steps", f"call exceeded its step budget: {t.budget_note}")
        if t.inject is not None and own >= t.inject[0]:
            if event == "line" and frame.f_code.co_filename.startswith(self.inj_prefix) and self._may_inject(frame):
                name = t.inject[1]
                t.inject = None
                self._recompute()
                co = frame.f_code
                self.injected.append([t.tid, own, name, f"{co.co_qualname}+{frame.f_lineno - co.co_firstlineno}"])
                self._raising = EXC[name]("injected by simulator")
                raise self._raising
            # else: stays armed, fires at the next admissible line
        if self.step >= self._next_switch:
            k = self.kind
            if k == "explicit":
                s = self.pol["schedule"]
                tid = s[self._sidx][1]
                self._sidx += 1
                self._plan_next()
                for c in self.runnable():
                    if c.tid == tid:
                        self._to(c, frame)
                        return
            elif k == "pct":
                self._sidx += 1
                t.prio = -self._sidx
                self._plan_next()
                c = max(self.runnable(), key=lambda x: x.prio)
                self._to(c, frame)
                return
            else:
                self._plan_next()
                self._switch_random(frame)
                return
        self._recompute()

    def _switch_random(self, frame):
        c = [x for x in self.runnable() if x is not self.cur]
        if c:
            self._to(self.rng.choice(c) if len(c) > 1 else c[0], frame)
        else:
            self._recompute()

    # locks ---------------------------------------------------------------
    def lock_point(self, t):
        if t is self.cur and not t.quiet:
            self.step += 1
            if self.step >= self.next_evt and self.step >= self._next_switch and t.inject is None:
                self.slow(sys._getframe(2), "lock")

    def yield_now(self, t):
        c = [x for x in self.runnable() if x is not t]
        if c:
            self._to(self._choose(c))

    def block(self, t, lock):
        self.blocks += 1
        t.blocked_on = lock
        c = self.runnable()
        if not c:
            self.on_fatal("hang.deadlock", "every unfinished thread waits for a lock that nobody can release")
        self._to(self._choose(c))

    def unblock(self, lock):
        for t in self.threads:
            if t.blocked_on is lock:
                t.blocked_on = None

    # ---- where exceptions may be injected ---------------------------------
    def _excluded_lines(self, filename):
        s = self._excl.get(filename)
        if s is not None:
            return s
        s = set()
        try:
            with open(filename, encoding="utf8") as fh:
                tree = ast.parse(fh.read())
        except Exception:
            tree = None
        if tree is not None:
            for n in ast.walk(tree):
                if isinstance(n, (ast.With, ast.AsyncWith)):
                    for ln in range(n.lineno, n.body[0].lineno):
                        s.add(ln)
                    s.add(n.lineno)
                elif isinstance(n, ast.Try):
                    s.add(n.lineno)
                    for b in n.finalbody:
                        s.update(range(b.lineno, (b.end_lineno or b.lineno) + 1))
                    for h in n.handlers:
                        names = ast.dump(h.type) if h.type is not None else "BaseException"
                        if "BaseException" in names or "KeyboardInterrupt" in names:
                            s.update(range(h.lineno, (h.end_lineno or h.lineno) + 1))
        self._excl[filename] = s
        return s

    def _may_inject(self, frame):
        """Not where Python code cannot defend itself: with-statement headers, try: lines, finally blocks."""
        f = frame
        while f is not None:
            fn = f.f_code.co_filename
            if fn.startswith(self.prefix) and f.f_lineno in self._excluded_lines(fn):
                return False
            f = f.f_back
        return True

    # ---- running -----------------------------------------------------------
    def run(self, bodies):
        self.threads = [Thread(i, b) for i, b in enumerate(bodies)]
        if self.kind == "pct":
            order = list(range(len(self.threads)))
            self.rng.shuffle(order)
            for t, p in zip(self.threads, order):
                t.prio = p + 1
            self._pts = sorted(self.rng.randrange(1, self.pol["len"]) for _ in range(self.pol["d"]))
        seams.set_sim(self)

        def boot(t):
            t.baton.acquire()
            self.by_ident[seams.get_ident()] = t
            self.trace_on()
            try:
                t.body(t)
            finally:
                self.trace_off()
                self._finish(t)

        # The interpreter's instrumentation must not change while threads are inside library code: the main
        # thread keeps tracing (to no effect) for the whole run, with per-opcode events already enabled.
        if self.gran == "opcode":
            sys._getframe().f_trace_opcodes = True
        self._sys_settrace(_no_trace)
        for t in self.threads:
            _start_new_thread(boot, (t,))
        self._plan_next()
        first = self._choose(self.threads)
        self.cur = first
        first.resume = self.step
        self._recompute()
        first.baton.release()
        self.main.acquire()
        self._sys_settrace(None)
        seams.set_sim(None)

    def _finish(self, t):
        t.done = True
        c = self.runnable()
        if c:
            self._to(self._choose(c))
            return
        if any(not x.done for x in self.threads):
            self.on_fatal("hang.deadlock", "threads are left waiting for a lock whose holder has ended")
        self.main.release()

    # ---- for op wrappers ------------------------------------------------------
    def op_begin(self, t, inject=None, budget=None, note=""):
        own = self.own(t)
        t.inject = [own + inject[0], inject[1]] if inject else None
        t.budget = own + budget if budget else None
        t.budget_note = note
        self._recompute()
        return own

    def op_end(self, t):
        t.inject = None
        t.budget = None
        self._recompute()
        self.trace_on()  # an exception raised from the trace function switches tracing off
