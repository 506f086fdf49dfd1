"""Per-property budgets, texts for MANIFEST.json, and the evidence file."""
import json
import os
import platform

Q = (100_000, 60)
T = (4_000_000, 840)

LIB_RULE = ("One case is one simulated execution: a seeded plan of {what} is run by 1-4 simulated client threads, and the seed fixes every switch between threads "
            "(policies: random walk, priority based with d change points, round robin, sticky, no preemption; at bytecode, line or call granularity) and every fault. "
            "A case is non-trivial if at least one thread was preempted inside library code or at least one fault struck{more}; distinct ones are counted by "
            "hash of (schedule, faults with the place where they struck, operation counts, step counts).")
LIB_REAL = ["the whole of pylogics_modalities (syntax, helpers, parsers, semantics, utils, deduction)", "lark", "CPython, its threads, pickle, copy"]
LIB_STUB = ["thread scheduler (baton driven by trace events)", "threading locks and RLocks", "builtins.hash (a pure function of salt and value, optionally truncated)",
            "time and random sources", "disk between interpreters (an in-memory map; files may be cut)"]
LIB_ASSUME = ["a switch between threads can happen only between trace events (bytecodes, lines or calls) of library code or at a lock; C code such as dict operations and lark's own code is atomic, as under CPython's GIL except for lark",
              "an interrupt or failed allocation appears at such a trace event; allocation failures inside C code appear as MemoryError raised there",
              "the reference model (sim/model.py) reads the published grammar and documented simplifications correctly"]


def lib(what, more="", assume=(), **k):
    d = {"quick": Q, "thorough": T, "level": "exploration", "min": 100, "rule": LIB_RULE.format(what=what, more=more), "real": LIB_REAL, "stub": LIB_STUB,
         "assumptions": LIB_ASSUME + list(assume)}
    d.update(k)
    return d


RST = "every answer is compared with an independent reference model"
INFO = {
    "C01": lib("parses of texts rendered from random syntax trees, and of damaged ones, in four logics, mixed with builds, resets and aborted parses", min=60,
               note="Seeded search over schedules, histories, aborts and texts of four logics; " + RST + " of the published grammar and the simplifications, so a wrong, mixed-up or missing answer, or an accepted text that is outside the language, is seen."),
    "C02": lib("concurrent builds, parses, failing builds and resets, followed by exact checks of the registry",
               note="Seeded search over interleavings of builds, parses and resets; the registry is judged by the interval rule of the statement over recorded start and end stamps, with forced hash collisions in some interpreters."),
    "C03": lib("hash, comparison, set lookup, printing, copying and building over shared formulas, some with colliding hashes",
               note="Seeded search; every pair of formulas is compared against the model's structural equality, hashes are logged over the formula's whole life."),
    "C04": lib("pickling and copying under interleaving and aborts in one interpreter, loading in others with other hash seeds, with files cut at arbitrary bytes", ", or it spans a restart",
               note="Two or more incarnations per run; only the bytes on the simulated disk survive, another hash seed every time; loads are compared with formulas built anew by the model."),
    "C05": lib("calls aborted by KeyboardInterrupt, MemoryError, RecursionError, exhausted stack or a raising caller object at a seeded step, followed by the same and other calls",
               note="Seeded search over the instant of the abort (any trace event of library code) and what comes after it; " + RST + ", and the aborted call is repeated."),
    "C06": lib("evaluations over interpretations mutated in place, formulas and interpretations discarded (so addresses are reused), resets and aborts",
               note="Seeded search; every truth value is compared with the model's at the interpretation's content at that time; interpretation and formula are compared before and after."),
    "C07": lib("printing in one interpreter, before and after resets and aborts, and parsing the text in others with other hash seeds", ", or it spans a restart",
               note="Two or more incarnations per run; texts are read back by the library's parsers in the same and in another interpreter and compared with the model's term, operand order included."),
    "C08": lib("natural-deduction proofs generated rule by rule (valid by construction) and corrupted variants, checked by several threads through shared and fresh checkers, with aborts", min=60,
               assume=["a proof is correct, or certainly wrong, by the textbook rules as sim/ndref.py reads them; of a proof about which the rules leave room (see DESIGN.md) only repeatability is asked"],
               note="Generated derivations cover every rule; damaged ones (scope, order, citation, formula, arbitrary edits) are judged by an independent proof checker; verdict, repeatability and the unchanged proof are checked under interleavings and after aborts."),
    "C09": {"quick": (100_000, 75), "thorough": T, "level": "exploration", "min": 60,
            "rule": "One case is one fresh interpreter that has not imported the library: 1-3 threads import public modules in a seeded order while opens and reads of grammar files fail, are short or are interrupted and while an exception strikes at a seeded "
                    "step of module code; then everything is imported again and used. Non-trivial: a thread was preempted or a fault struck; distinct by hash of schedule, faults and step counts.",
            "real": ["all modules of pylogics_modalities, lark's grammar compiler, CPython's import system"],
            "stub": ["open() and read() of grammar files (a raw layer that counts events and injects failures)", "locks, the import system's included", "thread scheduler", "builtins.hash", "regular expressions are compiled beforehand"],
            "assumptions": ["byte code of the library is not cached on disk (imports compile the sources)", "what CPython's import locks do to racing imports is not the library's doing: such a run only has to recover"],
            "note": "Seeded search over import orders, I/O faults, aborts and interleavings, each in an interpreter of its own; after the disturbance the parsers are held against the reference model."},
    "C10": lib("formulas of all five logics built from lists the client keeps and mutates, and collections handed out by formulas that the client mutates, at seeded instants",
               note="Seeded search over the instant and the place of the mutation; text, operands, hash, equality and truth value are compared before and after, and arguments are checked for modification."),
    "C11": lib("calls of every kind over deep, wide and repetitive arguments, under interleavings and after aborts, each with a step budget of 6000+1000n+60n^2+10n^3 for written size n", min=40,
               assume=["finishing within the stated cubic bound is 'bounded by a fixed polynomial'; steps are trace events of library code plus one per simulated hash call"],
               note="Liveness as progress within a bounded number of own steps after faults stop; waiting for a lock whose owner ended or waits in a cycle is reported as a deadlock."),
    "C12": lib("one program of builds, parses, prints, resets, evaluations and proof checks, run in interpreters that differ in hash seed, hash collisions, addresses and earlier work", ", or it ran in at least two interpreters", min=60,
               note="The recorded answers of the same program in two or three incarnations with different hash functions and earlier work have to be identical."),
    "C13": {"quick": (100_000, 60), "thorough": T, "level": "fault_enumeration", "min": 30,
            "rule": "Per generated pair of files: a run without faults gives the list of I/O events (open, read, write, fsync, close, rename, ...); then every event is struck by every fault that can strike it, one process each "
                    "(kill before / after / part-way, EIO, ENOSPC from there on, short or torn write, EACCES, ...), capped at 110 cases per pair in the quick tier, and pairs of faulty runs and kills between lines are sampled. One evaluation is one struck "
                    "case (process, then an undisturbed process). Non-trivial: the fault point was reached; distinct: no two cases of one pair of files have the same faults (an injected kill between lines counts as struck).",
            "real": ["scripts/sync-tox-ini.py, toml, packaging, configparser", "files in a scratch directory, processes and their death"],
            "stub": ["open(), os.open/read/write/fsync/replace/rename/... (counting and failing layer over the real calls)"],
            "assumptions": ["the operating system keeps what a killed process wrote (no power loss)", "rename within a directory is atomic"],
            "note": "For each generated pair of input files every I/O event times every fault kind is enumerated (sampled beyond the cap); the files themselves and kill points between lines are sampled by seed."},
    "C14": {"quick": (100_000, 60), "thorough": T, "level": "exploration", "min": 300,
            "rule": "One case is one run of the script over a generated project of 0-9 packages with generated release histories, each package's index answer and tool result chosen from working and failing ones. Non-trivial: a fault was met; "
                    "distinct by hash of faults, calls and steps.",
            "real": ["scripts/update-dependencies.py, toml, packaging"],
            "stub": ["requests (a simulated index with connection failures, stalls, error statuses, malformed documents)", "pkg_resources.parse_version (packaging's)", "subprocess (a simulated installing tool)", "clock and sleep"],
            "assumptions": ["the stub raises the exceptions the real requests library raises (its hierarchy is copied)", "a package's failure lasts for the whole run", "malformed means that the document, or its table of releases, is not of the right shape"],
            "note": "Seeded search over release histories and per-package network and tool faults in simulated time; the log of tool invocations must equal the model's."},
}


def evidence(prop, tier, vseed, s, wall, nviol, inf, home):
    hours = max(s.elapsed, 1e-9) / 3600
    st = dict(s.stats)
    faults = {k[6:]: st.pop(k) for k in sorted(st) if k.startswith("fault.")}
    ops = {k[3:]: st.pop(k) for k in sorted(st) if k.startswith("op.")}
    evals = s.done
    nontriv = len(s.nontrivial)
    if prop == "C13":
        evals = st.get("cases", 0)
        nontriv = st.pop("struck_distinct", 0)
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": nontriv,
        "rule": inf["rule"],
        "samples": s.samples or [{"note": "no run finished"}],
        "simulated_runs": s.done,
        "interpreter_incarnations": s.incarnations,
        "runs_per_hour": int(s.done / hours),
        "seeds": {"first": s.seed_of(0), "last": s.seed_of(max(s.done - 1, 0)), "per_hour": int(s.done / hours)},
        "simulated_steps": s.steps or st.get("ops", 0),
        "simulated_seconds": round(s.simtime, 1),
        "simulated_time_note": "the library reads no clock and sets no timer, so simulated time is counted in steps (trace events of library code)" if s.simtime == 0 else "time the stubs let pass for answers, time-outs and installations",
        "faults_injected": faults,
        "operations": ops,
        "distinct_interleavings": len(s.inters),
        "interleaving_measure": "hash of the sequence of (thread, code location) pairs at which control changed hands" if prop not in ("C13", "C14") else "hash of the sequence of I/O events (C13) or of requests and calls (C14)",
        "distinct_switch_places": len(s.sites),
        "distinct_fault_places": len(s.injsites),
        "largest_share_of_step_bound": s.ratio,
        "components_real": inf["real"],
        "components_stubbed": inf["stub"],
        "other_counts": st,
        "python": platform.python_version(),
        "harness_errors": len(s.errors),
    }
    if prop == "C13":
        cov["exhaustive"] = False
        cov["pairs_of_files"] = s.done
        cov["pairs_with_every_fault_point_enumerated"] = st.get("enumerated_completely", 0)
    d = {"property": prop, "tier": tier, "seed": vseed, "level": inf["level"], "coverage": cov, "assumptions": inf["assumptions"], "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(home, "evidence"), exist_ok=True)
    with open(os.path.join(home, "evidence", prop + ".json"), "w") as fh:
        json.dump(d, fh, indent=1)
