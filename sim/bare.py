"""Executors for the runs that start before the library is imported (C09) or run a script (C13, C14)."""
import builtins
import collections
import configparser
import importlib
import json
import os
import random
import shutil
import sys
import tempfile
import traceback
import types

from sim import engine, model, seams, simfs

HERE = os.path.dirname(os.path.abspath(__file__))


def result(viol, **k):
    d = {"viol": viol, "steps": 0, "stats": {}, "sites": [], "inter": 0, "injected": [], "schedule": [], "answers": [], "ratio": [0, ""], "disk": {}}
    d.update(k)
    return d


def run_phase(plan, ph, disk, repo, emit):
    return {"C09": Import, "C13": Tox, "C14": Update}[plan["prop"]](plan, plan["phases"][ph], repo, emit).run()


# ------------------------------------------------------------------------------------------------------------ C09


class Import:
    def __init__(self, plan, ph, repo, emit):
        self.plan, self.ph, self.repo, self.emit = plan, ph, repo, emit
        self.viol = []
        self.stats = collections.Counter()
        self.cur = {}
        self.refused = False
        self.undisturbed = []

    def bad(self, cls, msg, op=None):
        if len(self.viol) < 10:
            self.viol.append({"class": cls, "msg": msg[:600], "op": op, "phase": 0})

    def out(self, sim):
        self.stats["switches"] = sim.switches
        self.stats["preemptions"] = sim.preemptions
        self.stats["blocks"] = sim.blocks
        self.stats["io_events"] = self.fs.n
        for f in self.fs.fired:
            self.stats["fault.io." + f[2]] += 1
        if self.fs.short:
            self.stats["fault.io.short_reads"] += 1
        for x in sim.injected:
            self.stats["fault.inject." + x[2]] += 1
        return result(self.viol, steps=sim.step, stats=dict(self.stats), sites=sorted(sim.sites)[:400], inter=sim.interleaving, injected=sim.injected, schedule=sim.schedule,
                      sig=[self.fs.fired, self.fs.n])

    def fatal(self, cls, msg):
        self.bad(cls, msg + " | in progress: " + json.dumps(self.cur))
        self.emit(self.out(self.sim))

    def use(self, op, strict):
        """Parse one text and hold it against the model; print it; evaluate it."""
        from sim import lib

        lg = op["lg"]
        try:
            f = lib.PARSE[lg](op["text"])
        except Exception as e:
            if op["term"] is not None:
                self.bad("use.raise", f"after the import, parsing {op['text']!r} in {lg} raised {type(e).__name__}: {e}", op)
            return
        if op["term"] is None:
            self.bad("use.wrong", f"after the import, {op['text']!r} is accepted in {lg}", op)
            return
        want = model.node(op["term"], lg)
        got = lib.to_node(f)
        if got != want:
            self.bad("use.wrong", f"after the import, {op['text']!r} in {lg} reads as {got}, expected {want}"[:500], op)
            return
        if not strict:
            return
        try:
            s = lib.to_string(f)
            if lib.to_node(lib.PARSE[lg](s)) != want:
                self.bad("use.wrong", f"after the import, {s!r} does not read back", op)
            if lg == "pl":
                for true in (set(), {"a", "p"}, {"a", "b", "c", "p", "q"}):
                    if bool(lib.evaluate_pl(f, true)) is not model.evaluate(want, true):
                        self.bad("use.wrong", f"after the import, {op['text']!r} under {true} has the wrong truth value", op)
        except Exception as e:
            self.bad("use.raise", f"after the import, using {op['text']!r} raised {type(e).__name__}: {e}", op)

    def run(self):
        ph = self.ph
        pre = self.repo + "/pylogics_modalities/"
        sys.setrecursionlimit(6000)
        decoy = os.path.join(HERE, "decoy")
        os.chdir({"/": "/", "decoy": decoy, "scripts": self.repo + "/scripts"}[ph["cwd"]])
        main = sys.modules["__main__"]
        if ph["main"] == "none":
            if hasattr(main, "__file__"):
                del main.__file__
        elif ph["main"] == "decoy":
            main.__file__ = os.path.join(decoy, "app.py")
        self.fs = simfs.SimFS(lambda p: p.endswith(".lark") and os.path.abspath(p).startswith(pre), ph["io"], ph["short"])
        self.fs.install()
        cfg = {"gran": ph["gran"], "policy": ph["policy"], "cap": 50_000_000}
        self.sim = sim = engine.Sim(pre, cfg, self.fatal)
        sim.on_harness_error = lambda m, tb: self.emit({"error": "harness: " + m, "tb": tb[-3000:], "viol": []})

        def body(ti, ops):
            def go(t):
                for op in ops:
                    self.cur[ti] = op
                    self.do(sim, t, ti, op)
                self.cur.pop(ti, None)

            return go

        sim.run([body(i, o) for i, o in enumerate(ph["threads"])])
        for b in [] if self.refused else self.undisturbed:
            self.bad(*b)
        # the disturbance is over
        self.fs.enabled = False
        self.fs.short = 0
        for m in ph["order"]:
            try:
                importlib.import_module(m)
            except BaseException as e:
                self.bad("retry.raise", f"after the disturbance, import {m} raised {type(e).__name__}: {e}", {"m": m})
                break
        if not self.viol:
            try:
                importlib.import_module("sim.lib")
            except BaseException as e:
                self.bad("retry.raise", f"after the disturbance, importing the public names raised {type(e).__name__}: {e}")
        if not self.viol:
            if len(ph["threads"]) > 1 and sim.injected and self.mixed():
                # A thread that waits for a module whose import fails in another thread goes on with the
                # half-made module (CPython's PyImport_ImportModuleLevel), and so may bind classes that
                # the next import makes anew. Nothing in the library can prevent that.
                self.stats["mixed_by_interpreter"] += 1
            else:
                for u in ph["uses"]:
                    self.use(u, True)
        return self.out(sim)

    def mixed(self):
        for n, m in list(sys.modules.items()):
            if n.startswith("pylogics_modalities"):
                for k, v in list(vars(m).items()):
                    src = sys.modules.get(getattr(v, "__module__", None) or "")
                    if isinstance(v, type) and src is not None and src.__name__.startswith("pylogics_modalities") and getattr(src, v.__name__, v) is not v:
                        return True
        return False

    def do(self, sim, t, ti, op):
        f = op.get("f") or {}
        if op["o"] == "use":
            mods = ["pylogics_modalities.parsers"]
        else:
            mods = [op["m"]]
        fired0 = len(self.fs.fired), len(sim.injected)
        exc = None
        self.stats["ops"] += 1
        sim.op_begin(t, f.get("inj"), 3_000_000, "import")
        try:
            for m in mods:
                got = importlib.import_module(m)
        except engine.SimStop:
            raise
        except BaseException as e:
            exc = e
        finally:
            sim.op_end(t)
        disturbed = bool(self.fs.fired) or bool(sim.injected)
        if exc is not None:
            if "self-deadlock" in str(exc):
                self.bad("hang.deadlock", str(exc), op)
            # CPython's import locks refuse, or let see a half-made module, when imports of a package and
            # of its submodule race for the first time (see _ModuleLock.acquire and _lock_unlock_module in
            # importlib._bootstrap); that is no doing of the library.
            e = exc
            while e is not None:
                if type(e).__name__ == "_DeadlockError" or isinstance(e, ImportError) and "partially initialized module" in str(e) and len(self.ph["threads"]) > 1:
                    self.refused = True
                    self.stats["refused_by_interpreter"] += 1
                e = e.__cause__ or e.__context__
            if not disturbed:
                self.undisturbed.append(("import.raise", f"undisturbed import raised {type(exc).__name__}: {exc}", op))
            self.stats["import_failed"] += 1
            return
        self.stats["import_ok"] += 1
        t.quiet += 1
        try:
            # whatever is importable now must answer right
            if op["o"] == "use":
                self.direct(op)
            else:
                m = op["m"]
                for lg in ("pl", "ltl", "pltl", "ldl"):
                    if m == "pylogics_modalities.parsers" or m == "pylogics_modalities.parsers." + lg:
                        fn = getattr(got, "parse_" + lg, None)
                        if fn is None:
                            self.bad("import.wrong", f"{m} was imported without parse_{lg}", op)
                            continue
                        self.probe(fn, lg, op)
        finally:
            t.quiet -= 1

    PROBES = {"pl": [("a & b | !c", "or"), ("true", "T"), ("a -> b", "implies")], "ltl": [("a U b & c", "U"), ("true & a", "and")], "pltl": [("a S b & c", "S"), ("a | b & c", "or")],
              "ldl": [("<a & b>tt", "dia"), ("[a | b]ff", "box")]}

    def probe(self, fn, lg, op):
        names = {"and": "And", "or": "Or", "T": "TrueFormula", "F": "FalseFormula", "implies": "Implies", "U": "Until", "S": "Since", "dia": "Diamond", "box": "Box"}
        for text, k in self.PROBES[lg]:
            try:
                f = fn(text)
            except Exception as e:
                self.bad("import.wrong", f"import of parse_{lg} ended well, but parsing {text!r} raised {type(e).__name__}: {e}", op)
                continue
            if k == "T" and lg == "pl":
                ok = type(f).__name__ == "TrueFormula"
            elif lg == "ldl":
                inner = f.regular_expression.argument
                ok = type(f).__name__ == names[k] and type(inner).__name__ == ("And" if "&" in text else "Or")
            elif text == "a & b | !c":
                ok = type(f).__name__ == "Or" and type(f.operands[0]).__name__ == "And"
            elif text == "a U b & c":
                ok = type(f).__name__ == "And" and type(f.operands[0]).__name__ == "Until"
            elif text == "a S b & c":
                ok = type(f).__name__ == "And" and type(f.operands[0]).__name__ == "Since"
            elif text == "a | b & c":
                ok = type(f).__name__ == "Or" and type(f.operands[1]).__name__ == "And"
            else:
                ok = type(f).__name__ == names[k]
            if not ok:
                self.bad("import.wrong", f"import of parse_{lg} ended well, but {text!r} parses to {f!r}"[:400], op)

    def direct(self, op):
        m = sys.modules["pylogics_modalities.parsers"]
        fn = getattr(m, "parse_" + op["lg"], None)
        if fn is None:
            self.bad("import.wrong", f"the parsers package was imported without parse_{op['lg']}", op)
            return
        try:
            fn(op["text"])
        except Exception as e:
            self.bad("import.wrong", f"import ended well, but parsing {op['text']!r} in {op['lg']} raised {type(e).__name__}: {e}", op)


# ------------------------------------------------------------------------------------------------------------ C13


class Tox:
    """Every I/O event of the rewrite is struck in turn by every fault that can strike it."""

    def __init__(self, plan, ph, repo, emit):
        self.plan, self.ph, self.repo, self.emit = plan, ph, repo, emit
        self.script = repo + "/scripts/sync-tox-ini.py"
        self.viol = []
        self.stats = collections.Counter()
        self.evs = 0
        self.struck = set()

    def bad(self, cls, msg, case):
        if len(self.viol) < 6:
            self.viol.append({"class": cls, "msg": msg[:600], "op": case, "phase": 0})

    def path(self, n):
        return os.path.join(self.dir, n)

    def content(self):
        try:
            with open(self.path("tox.ini"), "rb") as fh:
                return fh.read()
        except FileNotFoundError:
            return None

    def reset(self):
        for n in os.listdir(self.dir):
            p = self.path(n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        with open(self.path("tox.ini"), "wb") as fh:
            fh.write(self.old)
        with open(self.path("pyproject.toml"), "wb") as fh:
            fh.write(self.ph["py"].encode())

    def once(self, case):
        """Run the script in a process of its own. -> (status, event log)"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                os.chdir(self.dir)
                d = os.path.realpath(self.dir) + os.sep
                tempfile.tempdir = self.dir
                fs = simfs.SimFS(lambda p: (os.path.abspath(p) + os.sep).startswith(d), case.get("io", []), case.get("short", 0), on_event=lambda op: simfs.real["write"](w, (op + "\n").encode()),
                                 deny=lambda p: not (os.path.abspath(p) + os.sep).startswith(d) and not os.path.abspath(p).startswith("/dev/"))
                a = ["pyproject.toml", "tox.ini"] if self.ph["rel"] else [self.path("pyproject.toml"), self.path("tox.ini")]
                sys.argv = [self.script] + a
                with open(self.script, encoding="utf8") as fh:
                    src = fh.read()
                codeobj = compile(src, self.script, "exec")
                mod = types.ModuleType("__main__")
                mod.__file__ = self.script
                sys.modules["__main__"] = mod
                fs.install()
                if case.get("line"):
                    self.trace(case["line"])
                try:
                    exec(codeobj, mod.__dict__)
                    code = 0
                except SystemExit as e:
                    code = 0 if e.code in (None, 0) else 1
                except BaseException:
                    if os.environ.get("VERIF_DEBUG"):
                        traceback.print_exc()
                    code = 1
                sys.settrace(None)
            finally:
                os._exit(code)
        os.close(w)
        buf = b""
        while True:
            d = os.read(r, 65536)
            if not d:
                break
            buf += d
        os.close(r)
        _, st = os.waitpid(pid, 0)
        log = buf.decode().split()
        self.evs += len(log)
        self.stats["processes"] += 1
        return os.waitstatus_to_exitcode(st), log

    def trace(self, line):
        n, exc = line
        sim = engine.Sim(self.script, {}, None)
        left = [n]

        def local(frame, event, arg):
            if event == "line":
                left[0] -= 1
                if left[0] <= 0 and sim._may_inject(frame):
                    sys.settrace(None)
                    if exc == "kill":
                        os._exit(77)
                    raise engine.EXC[exc]("simulated")
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename == self.script else None

        sys.settrace(glob)

    def kinds(self, op):
        k = ["kill", "EIO", "KeyboardInterrupt"]
        if op == "open":
            k += ["ENOENT", "EACCES", "EMFILE", "ENOSPC", "kill_after"]
        elif op == "read":
            k += []
        elif op in ("write", "pwrite", "writev"):
            k += ["ENOSPC", "kill_after", "kill_part", "short", "torn_ENOSPC", "torn_EIO"]
        elif op == "close":
            k += ["ENOSPC", "kill_after"]
        elif op in ("fsync", "fdatasync", "ftruncate"):
            k += ["ENOSPC", "kill_after"]
        else:
            k += ["EACCES", "EBUSY", "EROFS", "kill_after"]
        return k

    def check(self, cases, what):
        c = self.content()
        if c == self.old or c == self.new:
            self.stats["left_old" if c == self.old else "left_new"] += 1
            return True
        size = "no file" if c is None else f"{len(c)} bytes"
        kind = "neither the old nor the new content"
        if c is not None and (self.new.startswith(c) or self.old.startswith(c)):
            kind = "a truncated file"
        self.bad("torn", f"{what}, the tox file is {kind} ({size}; old {len(self.old)}, new {len(self.new)})", cases)
        return False

    def clean(self, cases):
        st, _ = self.once({})
        if st != 0:
            self.bad("rerun.raise", f"the undisturbed run after the fault ended with status {st}", cases)
        elif self.content() != self.new:
            c = self.content()
            self.bad("rerun.differs", f"the undisturbed run after the fault gave {None if c is None else len(c)} bytes that differ from the {len(self.new)} bytes of a run without faults", cases)

    def parsed(self, data):
        c = configparser.ConfigParser(interpolation=None)
        try:
            c.read_string(data.decode())
        except (configparser.Error, UnicodeDecodeError):
            return None
        return {s: dict(c[s]) for s in c.sections()}

    def lost(self, old, new):
        """What is in the old content and not in the new, but for versions."""
        for sec, opts in old.items():
            for k, v in opts.items():
                w = new.get(sec, {}).get(k)
                if w is None or (w != v and (k != "deps" or len(w.split("\n")) != len(v.split("\n")))):
                    return f"[{sec}] {k}"
        return None

    def case(self, cases):
        """A sequence of disturbed runs, then an undisturbed one."""
        self.reset()
        struck = False
        for k, case in enumerate(cases):
            st, log = self.once(case)
            struck = struck or bool(case.get("line"))
            for f in case.get("io", []):
                if len(log) > f[0]:
                    struck = True
                    self.stats["fault.io." + f[1]] += 1
            if case.get("line"):
                self.stats["fault.line." + case["line"][1]] += 1
            if not self.check(cases, f"after {'a run' if len(cases) == 1 else 'run ' + str(k + 1)} struck by {json.dumps(case)} (status {st})"):
                return False
            if self.viol:
                return False
        self.clean(cases)
        self.stats["cases"] += 1
        key = json.dumps(cases, sort_keys=True)
        if struck and key not in self.struck:
            self.struck.add(key)
            self.stats["struck_distinct"] += 1
        return not self.viol

    def run(self):
        ph = self.ph
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="verif-c13-"))
        self.old = ph["tox"].encode()
        try:
            self.go()
        finally:
            shutil.rmtree(self.dir)
        if self.viol and self.viol[0].get("op"):
            ph["cases"] = [self.viol[0]["op"]]
        return result(self.viol, steps=self.evs, stats=dict(self.stats), inter=self.sig, sig=self.sig, note=self.note)

    def go(self):
        ph = self.ph
        self.reset()
        st, log = self.once({})
        self.new = self.content()
        self.sig = hash(tuple(log)) & 0xFFFFFFFF
        self.note = {"events": log[:60]}
        if st != 0:
            # a tox file the script cannot read: it must be left alone
            self.stats["unreadable"] += 1
            if self.parsed(self.old) is not None:
                self.bad("run.raise", f"an undisturbed run on files that can be read ended with status {st}", [{}])
                return
            if self.new != self.old:
                self.bad("torn", "the script failed and changed the file", [{}])
            return
        self.stats["changes" if self.new != self.old else "no_change"] += 1
        old, new = self.parsed(self.old), self.parsed(self.new or b"")
        if old is not None and (new is None or self.lost(old, new)):
            self.bad("torn", f"the new content of an undisturbed run is incomplete: {self.lost(old, new) if new else 'it cannot be read'}", [{}])
            return
        st, _ = self.once({})
        if st != 0 or self.content() != self.new:
            self.bad("rerun.differs", f"running the script again changed the file (status {st})", [{}])
            return
        if ph["short"]:
            self.reset()
            st, log = self.once({"short": ph["short"]})
            if st != 0 or self.content() != self.new:
                self.bad("torn", f"with reads and writes of at most {ph['short']} bytes the result differs (status {st})", [{"short": ph["short"]}])
                return
            self.stats["fault.io.short_transfers"] += len(log)
        if ph["cases"] is not None:
            todo = ph["cases"]
        else:
            rng = random.Random(ph["pick"])
            base = {"short": ph["short"]} if ph["short"] else {}
            todo = [[dict(base, io=[[k, kind]])] for k, op in enumerate(log) for kind in self.kinds(op)]
            todo += [[dict(base, io=[[k, "ENOSPC", "from"]])] for k, op in enumerate(log) if op == "write"]
            self.stats["fault_points"] = len(todo)
            if len(todo) > ph["cap"]:
                # the writes of a file in many pieces are all alike: sample them
                todo = rng.sample(todo, ph["cap"])
            else:
                self.stats["enumerated_completely"] = 1
            todo += [[dict(base, line=[rng.randint(1, 160), rng.choice(["kill", "KeyboardInterrupt"])])] for _ in range(ph["lines"])]
            singles = [c[0] for c in todo]
            todo += [[rng.choice(singles), rng.choice(singles)] for _ in range(ph["pairs"])]
        for c in todo:
            if not self.case(c):
                return


# ------------------------------------------------------------------------------------------------------------ C14


class SimHang(BaseException):
    pass


class Update:
    def __init__(self, plan, ph, repo, emit):
        self.plan, self.ph, self.repo, self.emit = plan, ph, repo, emit
        self.script = repo + "/scripts/update-dependencies.py"
        self.viol = []
        self.stats = collections.Counter()
        self.now = 0.0
        self.calls = []
        self.reqs = collections.Counter()
        self.by = {p["name"]: p for p in ph["pkgs"]}

    def bad(self, cls, msg, op=None):
        if len(self.viol) < 6:
            self.viol.append({"class": cls, "msg": msg[:700], "op": op, "phase": 0})

    # ---- the simulated package index ---------------------------------------------------------------
    def stub_requests(self):
        me = self
        rq = types.ModuleType("requests")
        ex = types.ModuleType("requests.exceptions")

        class RequestException(IOError):
            def __init__(self, *a, **k):
                self.response = k.pop("response", None)
                self.request = k.pop("request", None)
                super().__init__(*a)

        def sub(name, *bases):
            c = type(name, bases or (RequestException,), {})
            setattr(ex, name, c)
            setattr(rq, name, c)
            return c

        setattr(ex, "RequestException", RequestException)
        rq.RequestException = RequestException
        HTTPError = sub("HTTPError")
        ConnErr = sub("ConnectionError")
        SSLError = sub("SSLError", ConnErr)
        Timeout = sub("Timeout")
        ConnectTimeout = sub("ConnectTimeout", ConnErr, Timeout)
        ReadTimeout = sub("ReadTimeout", Timeout)
        Chunked = sub("ChunkedEncodingError")
        JSONErr = sub("JSONDecodeError", RequestException, ValueError)
        sub("TooManyRedirects")
        sub("InvalidURL")
        rq.exceptions = ex
        rq.codes = types.SimpleNamespace(ok=200, OK=200, not_found=404, too_many_requests=429, service_unavailable=503)

        class Response:
            def __init__(self, status, body):
                self.status_code = status
                self.ok = status < 400
                self._body = body
                self.headers = {"content-type": "application/json"}
                self.reason = "simulated"

            @property
            def text(self):
                return self._body

            @property
            def content(self):
                return self._body.encode()

            def json(self, **k):
                try:
                    return json.loads(self._body)
                except RecursionError:
                    raise
                except ValueError as e:
                    raise JSONErr(str(e))

            def raise_for_status(self):
                if self.status_code >= 400:
                    raise HTTPError(f"{self.status_code} simulated", response=self)

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def __bool__(self):
                return self.ok

        def get(url, params=None, timeout=None, **k):
            name = url.rstrip("/").split("/")[-2] if url.rstrip("/").endswith("/json") else url.rstrip("/").split("/")[-1]
            me.reqs[name] += 1
            me.stats["requests"] += 1
            if me.reqs[name] > 50:
                raise SimHang(f"more than 50 requests for {name}")
            p = me.by.get(name)
            if p is None:
                return Response(404, "{}")
            t = timeout[-1] if isinstance(timeout, tuple) else timeout
            t0 = timeout[0] if isinstance(timeout, tuple) else timeout
            f = p["fault"]
            if f:
                me.stats["fault.net." + f] += 1
            if f == "stall":
                if t0 is None:
                    raise SimHang(f"the request for {name} has no timeout and the server never answers")
                me.now += float(t0)
                raise ConnectTimeout("simulated: no connection")
            if f == "stall_body":
                if t is None:
                    raise SimHang(f"the request for {name} has no timeout and the server never answers")
                me.now += float(t)
                raise ReadTimeout("simulated: no answer")
            if f == "timeout":
                me.now += 5
                raise ReadTimeout("simulated")
            if t is not None and p["delay"] > t:
                pass  # slow but alive: bytes keep coming, no read waits that long
            me.now += p["delay"]
            if f == "refused":
                raise ConnErr("simulated: refused")
            if f == "reset":
                raise Chunked("simulated: reset")
            if f == "ssl":
                raise SSLError("simulated")
            if f == "oserror":
                raise OSError("simulated")
            if f == "valueerror":
                raise ValueError("simulated")
            body = {"info": {"name": name}, "releases": {v: [{"requires_python": s[0], "filename": f"{name}-{v}.whl"} for s in files] for v, files, _ in p["releases"]}}
            text = json.dumps(body)
            if f and f.startswith("status"):
                return Response(int(f[6:]), text if f != "status204" else "")
            if f == "badjson":
                text = text[: len(text) // 2]
            elif f == "jsonlist":
                text = "[1, 2]"
            elif f == "jsonnull":
                text = "null"
            elif f == "jsonstr":
                text = '"busy"'
            elif f == "relnull":
                text = '{"releases": null}'
            elif f == "relnum":
                text = '{"releases": 7}'
            elif f == "rellist":
                text = '{"releases": ["1.0", "2.0"]}'
            elif f == "relmissing":
                text = '{"info": {}}'
            elif f == "hugejson":
                text = "[" * 100000
            return Response(200, text)

        class Session:
            def __init__(self):
                self.headers = {}

            def get(self, url, **k):
                return get(url, **k)

            def request(self, method, url, **k):
                return get(url, **k)

            def mount(self, *a):
                pass

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

        rq.get = get
        rq.request = lambda method, url, **k: get(url, **k)
        rq.Session = rq.session = Session
        rq.Response = Response
        sys.modules["requests"] = rq
        sys.modules["requests.exceptions"] = ex
        pk = types.ModuleType("pkg_resources")
        from packaging import version

        pk.parse_version = version.parse
        sys.modules["pkg_resources"] = pk

    # ---- the simulated installing tool ---------------------------------------------------------------
    def stub_tool(self):
        import subprocess

        me = self

        def invoke(args, check=False, capture_output=False, text=False, stdout=None, stderr=None, **k):
            if isinstance(args, str):
                args = args.split()
            args = [str(a) for a in args]
            me.calls.append(args)
            if len(me.calls) > 500:
                raise SimHang("more than 500 invocations of the tool")
            name = me.package_of(args)
            p = me.by.get(name, {})
            f = p.get("tool")
            me.now += 3
            if f:
                me.stats["fault.tool." + f] += 1
            if f == "notfound":
                raise FileNotFoundError(2, "simulated", args[0])
            if f == "perm":
                raise PermissionError(13, "simulated", args[0])
            if f == "oserror":
                raise OSError(12, "simulated: cannot fork")
            rc = {"exit1": 1, "exit2": 2, "signal": -9}.get(f, 0)
            if rc and check:
                raise subprocess.CalledProcessError(rc, args, "" if text else b"", "" if text else b"")
            return subprocess.CompletedProcess(args, rc, "" if text else b"", "" if text else b"")

        subprocess.run = invoke
        subprocess.check_call = lambda a, **k: invoke(a, check=True, **k).returncode
        subprocess.call = lambda a, **k: invoke(a, **k).returncode
        subprocess.check_output = lambda a, **k: invoke(a, check=True, **k).stdout

        class Popen:
            def __init__(self, args, **k):
                self.args = args
                self.returncode = invoke(args, **k).returncode

            def wait(self, timeout=None):
                return self.returncode

            def communicate(self, *a, **k):
                return b"", b""

            def poll(self):
                return self.returncode

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

        subprocess.Popen = Popen
        os.system = lambda c: invoke(c).returncode

    def package_of(self, args):
        last = args[-1]
        for n in sorted(self.by, key=len, reverse=True):
            if last.startswith(n) and not last[len(n):][:1].isalnum() and last[len(n):][:1] not in ("-", "_"):
                return n
        return last

    # ---- the model -----------------------------------------------------------------------------------
    def expected(self):
        from packaging.specifiers import SpecifierSet
        from packaging.version import Version

        pv = Version(self.ph["spec"][1])
        out = []
        for p in self.ph["pkgs"]:
            if p["name"] == "python" or p["fault"]:
                continue
            best = None
            for v, files, kind in p["releases"]:
                if kind in ("invalid", "empty", "pre"):
                    continue
                s = files[-1][0] or ">=3"
                parts = [x if x.strip()[:2] in ("==", "!=") else x.replace(".*", "") for x in s.split(",")]
                if pv not in SpecifierSet(",".join(parts)):
                    continue
                if best is None or Version(v) > best:
                    best = Version(v)
            if best is not None and best > Version("0"):
                out.append((p["name"], best))
        return out

    def run(self):
        ph = self.ph
        d = tempfile.mkdtemp(prefix="verif-c14-")
        try:
            f = os.path.join(d, "pyproject.toml")
            lines = ["[tool.poetry]", 'name = "x"', "[tool.poetry.dependencies]", f'python = "{ph["spec"][0]}"', "", "[tool.poetry.group.dev.dependencies]"]
            lines += [f'{p["name"]} = {p["value"]}' for p in ph["pkgs"]]
            with open(f, "w") as fh:
                fh.write("\n".join(lines) + "\n")
            self.go(f)
        finally:
            shutil.rmtree(d)
        return result(self.viol, steps=len(self.calls) + sum(self.reqs.values()), stats=dict(self.stats), simtime=self.now, sig=[len(self.calls), sorted(self.reqs.items())],
                      note={"calls": self.calls[:10]})

    def go(self, f):
        import time

        self.stub_requests()
        self.stub_tool()

        def sleep(s):
            self.now += max(0.0, float(s))
            if self.now > 30 * 86400:
                raise SimHang("a month has passed")

        time.sleep = sleep
        time.monotonic = time.perf_counter = lambda: 1000.0 + self.now
        time.time = lambda: 1.7e9 + self.now + (random.uniform(-1e5, 1e5) if self.ph["jump"] else 0)
        sys.argv = [self.script, f] + (["--poetry_path", self.ph["poetry"]] if self.ph["poetry"] else [])
        with open(self.script, encoding="utf8") as fh:
            code = compile(fh.read(), self.script, "exec")
        mod = types.ModuleType("__main__")
        mod.__file__ = self.script
        sys.modules["__main__"] = mod
        import logging

        logging.disable(logging.CRITICAL)
        steps = [0]
        cap = 3_000_000

        def local(frame, event, arg):
            steps[0] += 1
            if steps[0] > cap:
                sys.settrace(None)
                raise SimHang("the script runs without end")
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename == self.script else None

        status = None
        sys.settrace(glob)
        try:
            exec(code, mod.__dict__)
        except SystemExit as e:
            if e.code not in (None, 0):
                status = f"exit status {e.code}"
        except SimHang as e:
            self.bad("hang", str(e))
            return
        except BaseException as e:
            status = f"{type(e).__name__}: {e}"
        finally:
            sys.settrace(None)
        self.stats["script_lines"] = steps[0]
        if status is not None:
            self.bad("abort", f"the script did not finish: {status}")
        want = self.expected()
        tool = self.ph["poetry"] or "poetry"
        got = []
        for a in self.calls:
            if not a or a[0] != tool or "add" not in a:
                self.bad("call.wrong", f"unexpected invocation {a}")
                return
            n = self.package_of(a)
            got.append((n, a[-1][len(n):].lstrip("^@=~><")))
        # repeated attempts at a package whose installation fails are the tool's business
        seq = []
        for n, v in got:
            if seq and seq[-1] == (n, v) and self.by.get(n, {}).get("tool"):
                continue
            seq.append((n, v))
        from packaging.version import InvalidVersion, Version

        norm = []
        for n, v in seq:
            try:
                norm.append((n, Version(v)))
            except InvalidVersion:
                norm.append((n, v))
        self.stats["packages"] = len(self.ph["pkgs"])
        self.stats["expected_calls"] = len(want)
        if norm != want:
            self.bad("call.differs", f"asked the tool for {[(n, str(v)) for n, v in norm]}, expected {[(n, str(v)) for n, v in want]}")
