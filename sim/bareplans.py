"""Plans for the properties whose runs start before the library is imported, or never import it."""
from sim import gen, model, plans

PKG = "pylogics_modalities"
MODULES = [PKG + x for x in ("", ".parsers", ".parsers.pl", ".parsers.ltl", ".parsers.pltl", ".parsers.ldl", ".parsers.base", ".syntax", ".syntax.base", ".syntax.pl", ".syntax.ltl",
                             ".syntax.pltl", ".syntax.ldl", ".syntax.fol", ".semantics", ".semantics.pl", ".semantics.base", ".utils", ".utils.to_string", ".helpers.cache_hash",
                             ".deduction.fol", ".deduction.fol.nd", ".exceptions")]
HEAVY = [PKG + x for x in (".parsers", ".parsers.pl", ".parsers.ltl", ".parsers.pltl", ".parsers.ldl")]


def c09(r, tier):
    g = gen.Gen(r, natoms=3, odd=0.1)
    nt = r.choice([1, 1, 2, 2, 3])
    io_kind = r.random()
    faults = []
    short = 0
    if io_kind < 0.5:
        for _ in range(r.choice([1, 1, 2, 3])):
            k = int(r.expovariate(1 / 25.0)) if r.random() < 0.7 else r.randrange(0, 130)
            kind = r.choice(["EIO", "EMFILE", "ENOENT", "EACCES", "ENOMEM", "KeyboardInterrupt", "MemoryError"])
            f = [k, kind]
            if kind in ("EMFILE", "EIO") and r.random() < 0.4:
                f.append("from")  # stays until the disturbance ends
            faults.append(f)
    if r.random() < 0.25:
        short = r.choice([1, 7, 64, 300])
    inject = r.random() < (0.5 if not faults else 0.15)
    ths = []
    for i in range(nt):
        ops = []
        k = r.choice([1, 1, 2, 3, 4])
        mods = [r.choice(HEAVY) if r.random() < 0.55 else r.choice(MODULES) for _ in range(k)]
        for m in mods:
            op = {"o": "imp", "m": m}
            if inject and r.random() < 0.7:
                op["f"] = {"inj": [1 + (int(r.expovariate(1 / 250.0)) if r.random() < 0.7 else r.randrange(2500)), r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RecursionError"])]}
            ops.append(op)
            if "f" in op and r.random() < 0.5:
                ops.append({"o": "imp", "m": m})
        if r.random() < 0.5:
            lg = r.choice(["pl", "ltl", "pltl", "ldl"])
            t = g.term(lg, 2)
            ops.append({"o": "use", "lg": lg, "text": model.render(t, lg, r), "term": t})
        ths.append(ops)
    order = MODULES[:]
    r.shuffle(order)
    uses = []
    for lg in ("pl", "ltl", "pltl", "ldl"):
        for _ in range(3):
            t = g.term(lg, r.randint(1, 3))
            uses.append({"lg": lg, "text": model.render(t, lg, r), "term": t})
        uses.append({"lg": lg, "text": g.bad_text(lg), "term": None})
    cwd = r.choice(["/", "decoy", "decoy", "scripts"])
    main = r.choice(["none", "decoy", "decoy", "self"])
    return {"phases": [{"gran": "line", "policy": plans.policy(r), "threads": ths, "io": faults, "short": short, "order": order[: r.randint(3, len(order))], "uses": uses,
                        "cwd": cwd, "main": main, "setup": [], "final": []}]}


# ----------------------------------------------------------------------------------------------------------- C13

NAMES = ["pytest", "black", "mypy", "flake8-isort", "hypothesis", "toml", "tox", "mkdocs-material", "isort", "requests"]


def tox_text(r, deps):
    out = []
    if r.random() < 0.3:
        out += ["# a comment that configparser drops", "; another"]
    out += ["[tox]", "isolated_build = True", "envlist = py3{8,9}, black", ""]
    if r.random() < 0.3:
        out += ["[testenv]", "setenv =", "    PYTHONPATH = {toxinidir}", "allowlist_externals = pytest", ""]
    for i in range(r.choice([1, 2, 3, 6, 40])):
        sec = r.choice(["testenv:" + n + str(i) for n in ("black", "py{37,38}", "mypy", "docs")])
        out.append(f"[{sec}]")
        if r.random() < 0.7:
            out.append("skip_install = True")
        if r.random() < 0.85:
            lines = []
            for _ in range(r.randint(1, 4)):
                n = r.choice(NAMES)
                lines.append(r.choice([n, n + ">=1.0.0,<1.1.0", n + "==2.3", "-r requirements.txt", n + ">=1;python_version<'3.9'", "./local[dev]"]))
            if r.random() < 0.3:
                out.append("deps = " + lines[0])
            else:
                out.append("deps =")
                out += ["    " + x for x in lines]
        out.append("commands =" + r.choice([" black .", "\n    pytest --basetemp={envtmpdir} \\\n        tests/", ""]))
        out.append("")
    if r.random() < 0.4:
        out += ["[flake8]", "max-line-length = 120", "deps = untouched"]
    if r.random() < 0.15:
        out += ["# é ü ☃"]
    return "\n".join(out) + ("\n" if r.random() < 0.8 else "")


def pyproject_text(r):
    main, dev = {}, {}
    for n in NAMES:
        x = r.random()
        if x < 0.7:
            v = r.choice(["^1.2", "^23.3.0", "^0.8.1", "^2.31.0.1", "*", ">=1.0,<2", "^1.5.0"])
            (dev if r.random() < 0.7 else main)[n] = v
    out = ['[tool.poetry]', 'name = "x"', '', "[tool.poetry.dependencies]", 'python = ">=3.8,<4.0"']
    out += [f'{k} = "{v}"' for k, v in main.items()]
    out += ["", "[tool.poetry.group.dev.dependencies]"] + [f'{k} = "{v}"' for k, v in dev.items()]
    if r.random() < 0.2:
        out.append('complex = {version = "^1.0", extras = ["a"]}')
    return "\n".join(out) + "\n"


def c13(r, tier):
    py = pyproject_text(r)
    tox = tox_text(r, None)
    return {"nomin": True, "phases": [{"tox": tox, "py": py, "short": r.choice([0, 0, 0, 100, 700, 33]), "rel": r.random() < 0.4, "link": False, "cases": None, "pairs": r.randint(2, 6),
                                       "lines": r.randint(6, 20), "pick": r.randrange(1 << 30), "cap": 110 if tier == "quick" else 100000}]}


# ----------------------------------------------------------------------------------------------------------- C14

OKSPEC = [">=3.6", ">=3.7", None, "", ">=2.7, !=3.0.*, !=3.1.*", "<4,>=3.5", ">=3.6.*"]
BADSPEC = [">=3.10", ">=3.11", "<3", "==2.7.*", ">=4", ">3.9.9"]


def ver(r):
    return ".".join(str(r.choice([0, 1, 2, 3, 9, 10, 11, 23, 100])) for _ in range(r.choice([2, 3, 3, 3, 4])))


def release_table(r, python):
    out = []
    a, b, c = (int(x) for x in python.split("."))
    # specifications that turn on the project's own Python
    on = [f">={a}.{b}", f"<={a}.{b}.{c}", f"=={a}.{b}.*", f">={python}", f">={a}.{b - 1},!={a}.{b - 1}.*", f"~={a}.{b}", f">={a}.{b}.*", f"<{a}.{b + 1}.*"]
    off = [f">{python}", f"<{python}", f"!={a}.{b}.*", f"!={python}", f">={a}.{b + 1}", f"<{a}.{b}", f"=={a}.{b - 1}.*", f">={a}.{b + 1}.*", f">={a}.{b - 1},!={a}.{b}.*"]
    seen = set()
    n = r.choice([0, 1, 2, 4, 8, 15])
    for _ in range(n):
        x = r.random()
        v = ver(r)
        if v in seen:
            continue
        seen.add(v)
        if x < 0.15:
            v = v + r.choice(["a1", "b2", "rc1", ".dev3", "rc10"])
            out.append([v, [[r.choice(OKSPEC)]], "pre"])
        elif x < 0.22:
            out.append([r.choice(["not a version", "1.0-final-x", "2004d-beta!", "latest", "1..0", "??"]) + str(_), [[r.choice(OKSPEC)]], "invalid"])
        elif x < 0.3:
            out.append([v, [], "empty"])
        elif x < 0.5:
            out.append([v, [[r.choice(BADSPEC)]] * r.choice([1, 2]), "py"])
        elif x < 0.7 and r.random() < 0.7:
            out.append([v, [[r.choice(on)]], "ok"] if r.random() < 0.5 else [v, [[r.choice(off)]], "py"])
        elif x < 0.56:
            out.append([v + ".post1", [[r.choice(OKSPEC)]], "ok"])
        elif x < 0.62:
            a = v.split(".")
            w = ".".join(a[:-1] + ["0" + a[-1]]) if len(a[-1]) == 1 else v  # written as 2024.02.02 is
            out.append([w, [[r.choice(OKSPEC)]], "ok"])
        else:
            out.append([v, [[s] for s in [r.choice(OKSPEC)]] * r.choice([1, 1, 3]), "ok"])
    r.shuffle(out)
    return out


def c14(r, tier):
    pkgs = []
    spec = r.choice([[">=3.8,<4.0", "3.8.0"], [">=3.7,<4.0", "3.7.0"], [">=3.9", "3.9.0"], [">=3.6.2,<3.10", "3.6.2"], ["~=3.8", "3.8.0"], ["==3.9.*", "3.9.0"],
                     [">=3.10", "3.10.0"], [">=3.11,<4.0", "3.11.0"], [">=3.7.12,<3.12", "3.7.12"], [">=3.9,!=3.9.0,!=3.9.1", "3.9.2"]])
    names = r.sample(["bandit", "black", "codecov", "flake8-bugbear", "hypothesis", "ipython", "isort", "jupyter", "markdown", "mistune", "mkdocs", "mypy", "pylint", "tox", "twine", "vulture"], r.randint(1, 9))
    fail_rate = r.choice([0.0, 0.2, 0.5, 0.9])
    for n in names:
        p = {"name": n, "value": r.choice(['"^1.0.0"', '"*"', '{version = "^1.2", optional = true}']), "releases": release_table(r, spec[1]), "fault": None, "tool": None, "delay": round(r.random() * 20, 2)}
        if r.random() < fail_rate:
            p["fault"] = r.choice(["stall", "stall", "refused", "timeout", "reset", "ssl", "status404", "status500", "status503", "status429", "status204", "badjson", "jsonlist", "jsonnull",
                                   "jsonstr", "relnull", "relnum", "rellist", "relmissing", "hugejson", "stall_body", "oserror", "valueerror"])
        elif r.random() < fail_rate:
            p["tool"] = r.choice(["exit1", "exit2", "notfound", "perm", "oserror", "signal"])
        pkgs.append(p)
    if r.random() < 0.3:
        pkgs.insert(r.randrange(len(pkgs) + 1), {"name": "python", "value": '">=3.8"', "releases": [], "fault": None, "tool": None, "delay": 0})
    return {"phases": [{"pkgs": pkgs, "spec": spec, "poetry": r.choice([None, "poetry", "/opt/tools/bin/poetry"]), "jump": r.random() < 0.3}]}
