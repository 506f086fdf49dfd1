"""An interpreter incarnation: fixed hash seed and collisions; forks one child per simulated run.

argv: JSON {"mode": "lib"|"bare", "salt": n, "bits": n, "repo": path}
stdin: one JSON job per line; stdout: one JSON result per line.
"""
import ctypes
import gc
import json
import os
import select
import signal
import sys

LIBC = ctypes.CDLL(None)


def serve(cfg):
    out = os.fdopen(os.dup(1), "wb", buffering=0)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    sys.path.insert(0, "/verif" if not cfg.get("home") else cfg["home"])
    sys.path.insert(1, cfg["repo"])
    from sim import seams

    import threading

    threading.stack_size(128 * 1024 * 1024)
    import lark  # noqa: F401  (third-party code keeps real locks: it is not under test)
    import lark.tools  # noqa: F401

    seams.install(cfg["salt"], cfg["bits"])
    if cfg["mode"] != "plain":
        seams.install_locks()
    seams.install_clock()
    try:
        if cfg["mode"] == "lib":
            import pylogics_modalities

            if not os.path.realpath(pylogics_modalities.__file__).startswith(os.path.realpath(cfg["repo"]) + "/"):
                raise RuntimeError("wrong library: " + pylogics_modalities.__file__)
            from sim import plans, run  # noqa: F401

            seams.tame_identity("pylogics_modalities")
        else:
            from sim import bare, plans  # noqa: F401
            import argparse, configparser, logging, runpy, subprocess, tempfile, toml, packaging.requirements  # noqa: F401,E401
    except BaseException as e:
        import traceback

        out.write((json.dumps({"ready": False, "error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-2000:], "lib": in_library(e, cfg)}) + "\n").encode())
        return
    if cfg["mode"] == "lib":
        warm_regexes()
    gc.collect()
    gc.disable()
    gc.freeze()
    out.write((json.dumps({"ready": True}) + "\n").encode())
    inp = os.fdopen(0, "rb")
    while True:
        line = inp.readline()
        if not line:
            return
        job = json.loads(line)
        out.write((json.dumps(do_job(job, cfg)) + "\n").encode())


def in_library(e, cfg):
    """Was the exception raised by code under test?"""
    tb, last = e.__traceback__, None
    while tb is not None:
        last, tb = tb, tb.tb_next
    root = os.path.realpath(cfg["repo"]) + "/"
    return last is not None and os.path.realpath(last.tb_frame.f_code.co_filename).startswith(root)


def odd_end(cls, msg):
    return {"viol": [{"class": cls, "msg": msg, "op": None, "phase": None}], "stats": {}, "disk": None, "steps": 0, "answers": [], "nphases": 0}


def warm_regexes():
    """Compile, into the re module's own cache, the patterns that first parses compile.

    They are found out in a fork, so that the library itself stays unused in this process.
    """
    import re

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        seen = []
        real = re._compile

        def rec(pattern, flags):
            if isinstance(pattern, str):
                seen.append([pattern, int(flags)])
            return real(pattern, flags)

        re._compile = rec
        try:
            from sim import lib

            for lg, text in (("pl", "a & b"), ("ltl", "X a"), ("pltl", "Y a"), ("ldl", "<a>tt")):
                try:
                    lib.PARSE[lg](text)
                except Exception:
                    pass
        finally:
            os.write(w, json.dumps(seen).encode())
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.waitpid(pid, 0)
    os.close(r)
    try:
        pats = json.loads(buf)
    except ValueError:
        return
    for p, f in pats[:200]:
        re.compile(p, f)


def die_with_parent(ppid):
    """A run that hangs never outlives the process that forked it."""
    try:
        LIBC.prctl(1, signal.SIGKILL, 0, 0, 0)
    except Exception:
        pass
    if os.getppid() != ppid:
        os._exit(1)


def do_job(job, cfg):
    r, w = os.pipe()
    from sim import seams

    t0 = seams.real_monotonic()
    ppid = os.getpid()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        die_with_parent(ppid)
        child(job, cfg, w)
    os.close(w)
    limit = job.get("wall", 120)
    buf = []
    end = t0 + limit
    timed_out = False
    while True:
        left = end - seams.real_monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed_out = True
            break
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf.append(d)
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return {"id": job["id"], "error": "timeout", "wall": limit}
    data = b"".join(buf)
    if not data:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
            return dict(odd_end("died", f"the interpreter died of signal {os.WTERMSIG(st)}"), id=job["id"])
        return {"id": job["id"], "error": f"died with status {st}"}
    res = json.loads(data)
    res["id"] = job["id"]
    return res


def child(job, cfg, w):
    sent = []

    def emit(res):
        if sent:
            os._exit(0)
        sent.append(1)
        if plan:
            res["nphases"] = len(plan["phases"])
            res["salts"] = plan.get("salts")
        if job.get("want_plan") or res.get("viol"):
            res["plan"] = plan
        d = json.dumps(res).encode()
        while d:
            d = d[os.write(w, d) :]
        os._exit(0)

    plan = None
    try:
        from sim import plans, seams

        seams.seed_run(job.get("seed", 0))
        plan = job.get("plan") or plans.make(job["prop"], job["seed"], job.get("tier", "quick"))
        if job.get("phase", 0) < 0:
            emit({"viol": [], "plan": plan})
        if cfg["mode"] == "lib":
            from sim import run

            res = run.run_phase(plan, job.get("phase", 0), job.get("disk"), cfg["repo"], emit)
        else:
            from sim import bare

            res = bare.run_phase(plan, job.get("phase", 0), job.get("disk"), cfg["repo"], emit)
        emit(res)
    except BaseException as e:
        import traceback

        if in_library(e, cfg):
            tb = traceback.extract_tb(e.__traceback__)[-1]
            emit(odd_end("escaped", f"{type(e).__name__} at {os.path.basename(tb.filename)}:{tb.lineno} ({tb.name}) where the library is used undisturbed: {str(e)[:200]}"))
        emit({"error": f"harness: {type(e).__name__}: {e}", "tb": traceback.format_exc()[-3000:], "viol": []})


if __name__ == "__main__":
    serve(json.loads(sys.argv[1]))
