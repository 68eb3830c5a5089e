"""C24: the command line runs the simulations of a file with the options given there."""
import collections, copy, json, logging, os, sqlite3, subprocess
import yaml
from vf.lib import *
from vf.core import Target
from vf.props.c17 import tree

TECHNIQUE = "generated command lines over generated Python and YAML simulation files, against an oracle that applies each option to each simulation of the file; in process and as a program"
ASSUMPTIONS = ["the file itself does not set what the command line always decides (dump, dry run, exporters, output folder, level)",
               "parameters set with --set are not also varied in the matrix; nested ones exist in the file"]

BUILT = []


class Ag(A.NetworkAgent):
    n = 0

    def step(self):
        self.n += 1
        self.model.trace.append((float(self.now), self.unique_id, round(self.random.random(), 6)))
        return [1, 0.5, 2][(self.n + self.unique_id) % 3]


class World(E.Environment):
    size = 2
    alpha = "unset"
    beta = "unset"
    cfg = "unset"
    mu = "unset"

    def init(self):
        BUILT.append(1)
        for level in (10, 20, 30, 40):
            self.log("ticktock", level=level)
        self.trace = []
        for i in range(self.size):
            self.add_agent(Ag)


class Ticks(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.levels = []

    def emit(self, record):
        if "ticktock" in record.getMessage():
            self.levels.append(record.levelno)


class Wider(World):
    size = 3


value = st.sampled_from([0, 1, -2, 2.5, "x", "a b", "", "k=v", None, True, [1, "z"], {"q": 1}, "1", "it's"])
sim = fixed(model=st.sampled_from(["World", "World", "Wider"]), params=st.fixed_dictionaries({}, optional={"alpha": value, "beta": value, "size": st.integers(1, 3)}),
            inner=value, matrix=weighted((None, 2), ([1, 2], 1), (["u"], 1)),
            fields=st.fixed_dictionaries({}, optional=dict(max_time=st.sampled_from([0, 2, 2.5, 4.0]), iterations=st.integers(1, 3), seed=st.sampled_from(["s", "1", "007"]),
                                                           group=st.just("g"), description=st.just("text"))), steps=weighted((None, 1), (0, 1), (1, 2), (3, 2)))
sets = st.lists(st.tuples(st.sampled_from(["alpha", "beta", "cfg", "cfg.inner", "cfg.deep.leaf", "cfg.deep.new", "cfg.keys", "cfg.values.leaf", "cfg.deep.items", "newone"]), value).map(list), max_size=4)


def cases():
    return fixed(kind=weighted(("globals", 3), ("runs", 3), ("class", 2), ("yaml", 3), ("instance", 2)), sims=st.lists(sim, min_size=1, max_size=3), sets=sets,
                 max_time=st.sampled_from([None, None, "3", "1.5", "0", "2e0"]), max_steps=st.sampled_from([None, None, "2", "0", "4"]), iterations=st.sampled_from([None, None, "1", "2", "4"] * 8 + ["105"]),
                 seed=st.sampled_from([None, None, "12", "other seed", "0", ""]), exporters=st.lists(st.sampled_from(["csv", "summary", "YAML", "gexf", "default", "dummy"]), max_size=3),
                 csv=st.booleans(), graph=st.booleans(), output=st.sampled_from([None, "out", "deep/er", "abs"]), no_dump=weighted((False, 2), (True, 1)), dry=weighted((False, 3), (True, 1)),
                 convert=weighted((False, 3), (True, 1)), level=st.sampled_from([None, "debug", "ERROR", "Info", "WARNING"]), style=st.sampled_from(["argv", "cfg", "default"]),
                 own=st.sampled_from([None, ["csv"], ["summary", "dummy"]]), kwargs=st.fixed_dictionaries({}, optional={"max_steps": st.integers(0, 3), "description": st.just("given"), "overwrite": st.booleans()}),
                 order=st.integers(0, 5), eq=st.booleans(), module=st.sampled_from([None, None, "good"]), easy=st.booleans())


def definition(s, i):
    """Keyword arguments of simulation i of the file."""
    kw = dict(s["fields"])
    kw["name"] = "sim%d" % i
    kw["parameters"] = dict(copy.deepcopy(s["params"]), cfg={"inner": copy.deepcopy(s["inner"]), "deep": {"leaf": copy.deepcopy(s["inner"])}, "values": {"leaf": 0}})
    if s["matrix"]:
        kw["matrix"] = {"mu": list(s["matrix"])}
    if s["steps"] is not None:
        kw["max_steps"] = s["steps"]
    if kw.get("max_time") is None and kw.get("max_steps") is None:
        kw["max_steps"] = 2
    return kw


def write(case, folder):
    """Writes the file; returns its path and what it defines: [(model, kwargs)]."""
    defs = [(globals()[s["model"]], definition(s, i)) for i, s in enumerate(case["sims"])]
    kind = case["kind"]
    if kind == "instance":
        return None, defs[:1]
    if kind == "yaml":
        p = os.path.join(folder, "simulation.yml")
        with open(p, "w") as f:
            yaml.dump_all([dict(kw, model="vf.props.c24." + m.__name__) for m, kw in defs], f)
        return p, defs
    p = os.path.join(folder, "sims.py")
    lines = ["import soil", "from soil import Simulation", "from vf.props import c24"]
    out = []
    if kind == "class":
        for i, (m, kw) in enumerate(defs):
            lines += ["class M%d(c24.%s):" % (i, m.__name__), "    pass"]
            out.append((m, {"name": "M%d" % i, "parameters": {}}))
    for i, (m, kw) in enumerate(defs):
        if kind == "globals":
            lines.append("sim%d = Simulation(model=c24.%s, **%r)" % (i, m.__name__, kw))
            out.append((m, kw))
        elif kind == "runs":
            lines.append("Simulation(model=c24.%s, **%r).run()" % (m.__name__, kw))
            for v in (kw.get("matrix") or {"mu": [None]})["mu"]:
                k2 = copy.deepcopy(kw)
                if k2.pop("matrix", None):
                    k2["parameters"]["mu"] = v
                out.append((m, k2))
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    return p, out


def put(params, key, v):
    parts = key.split(".")
    for q in parts[:-1]:
        params = params[q]
    params[parts[-1]] = v


def argv(case):
    opts = []

    def opt(name, v):
        opts.append(["%s=%s" % (name, v)] if case["eq"] and name.startswith("--") or v == "" else [name, v])
    if case["max_time"] is not None:
        opt("--max_time", case["max_time"])
    if case["max_steps"] is not None:
        opt("--max_steps", case["max_steps"])
    if case["iterations"] is not None:
        opt("--iterations", case["iterations"])
    if case["seed"] is not None:
        opt("--seed", case["seed"])
    if case["output"] is not None:
        opt("-o" if case["order"] % 2 else "--output", case["outpath"])
    if case["level"] is not None:
        opt("--level", case["level"])
    for k, v in case["sets"]:
        opt("--set", "%s=%r" % (k, v))
    for e in case["exporters"]:
        opt("-e" if case["order"] % 2 else "--exporter", e)
    for flag, on in (("--csv", case["csv"]), ("--graph", case["graph"]), ("--no-dump", case["no_dump"]), ("--dry-run", case["dry"]), ("--only-convert", case["convert"])):
        if on:
            opts.append([flag])
    if case["module"]:
        opt("--module", "extra_mod_c24")
    # the same option may be given several times: keep their order
    keep = [o for o in opts if o[0].split("=")[0] in ("--set", "-e", "--exporter")]
    rest = [o for o in opts if o not in keep]
    n = case["order"] % len(rest) if rest else 0
    opts = rest[n:] + keep + rest[:n]
    return [x for o in opts for x in o]


def names_for(case, sims, exporters):
    """The files that dumping must produce, by exporter."""
    out = set()
    for m, kw in sims:
        base = os.path.join(kw.get("group") or "", kw["name"])
        if "default" in exporters or "SQLite" in exporters:
            out.add(os.path.join(base, kw["name"] + ".sqlite"))
    return out


def show(v):
    """The order of the keys of a dictionary is not part of its value."""
    if isinstance(v, dict):
        return "{%s}" % ", ".join("%r: %s" % (k, show(v[k])) for k in sorted(v, key=repr))
    return repr(v)


def outcome(m):
    return (m.id, float(m.now), m.schedule.steps, m.trace, [show(getattr(m, k)) for k in ("alpha", "beta", "cfg", "mu", "size")], m.__dict__.get("newone", "absent"), round(m.random.random(), 9))


def check(case, obs):
    case = dict(case)
    if case["kind"] == "class":
        case["sets"] = [kv for kv in case["sets"] if not kv[0].startswith("cfg.")]
        if not case["max_time"] and not case["max_steps"] and case["kwargs"].get("max_steps") is None:
            case["max_steps"] = "2"
    # a later --set may need what an earlier one replaced
    seen = []
    for k, v in case["sets"]:
        if not (k.startswith("cfg.") and any(x == "cfg" for x, _ in seen)):
            seen.append([k, v])
    case["sets"] = seen
    own = case["own"]
    allexp = list(dict.fromkeys((own or ["default"]) + case["exporters"] + ["csv"] * case["csv"] + ["gexf"] * case["graph"]))
    if "default" in allexp and "YAML" in allexp:
        case["exporters"] = [e for e in case["exporters"] if e != "YAML"]
        allexp.remove("YAML")
    folder = os.path.join(obs.scratch, "files")
    os.makedirs(folder)
    work = os.path.join(obs.scratch, "work")
    os.makedirs(work)
    style = case["style"]
    if style == "default" and case["kind"] != "yaml":
        style = "argv"
    if style == "default":
        folder = work
    os.chdir(work)
    path, defs = write(case, folder)
    with open(os.path.join(work, "extra_mod_c24.py"), "w") as f:
        f.write("import vf.props.c24 as c\nc.BUILT.append('module')\n")
    case["outpath"] = os.path.join(work, "absolute") if case["output"] == "abs" else case["output"]
    out = os.path.join(work, case["outpath"] or "soil_output")
    # what should happen
    expected = []
    for m, kw in defs:
        kw = dict(copy.deepcopy(kw))
        kw.update(case["kwargs"])
        if case["seed"] is not None:
            kw["seed"] = case["seed"]
        if case["iterations"] is not None:
            kw["iterations"] = int(case["iterations"])
        for k, v in case["sets"]:
            put(kw["parameters"], k, copy.deepcopy(v))
        if case["max_time"] is not None:
            kw["max_time"] = float(case["max_time"])
        if case["max_steps"] is not None:
            kw["max_steps"] = float(case["max_steps"])
        expected.append((m, kw))
    import soil
    args = argv(case)
    call = {}
    target = None
    if case["kind"] == "instance":
        m, kw = defs[0]
        kw = copy.deepcopy(kw)
        if case["order"] % 2:
            kw["parameters"] = collections.OrderedDict(kw["parameters"])
        call["cfg"] = S.Simulation(model=m, **kw)
    elif style == "argv":
        args = ([path] + args) if case["order"] % 2 else (args + [path])
    elif style == "cfg":
        call["cfg"] = path
    given = list(own) if own else None
    before = tree(work)
    old_argv, old_path, lg = sys.argv, list(sys.path), logging.getLogger("soil")
    old_level = lg.level
    del BUILT[:]
    ticks = Ticks()
    lg.addHandler(ticks)
    try:
        sys.argv = ["soil"] + args
        with silent() as (stdout, stderr):
            if case["easy"] and "cfg" in call and len(expected) == 1 and not case["convert"]:
                res = [soil.easy(exporters=given, **call, **copy.deepcopy(case["kwargs"]))]
                require(isinstance(res[0], list), "easy returned {!r}", res[0])
                obs.tag("easy")
            else:
                res = soil.main(exporters=given, **call, **copy.deepcopy(case["kwargs"]))
        level = lg.level
    finally:
        lg.removeHandler(ticks)
        sys.argv, sys.path[:] = old_argv, old_path
        sys.modules.pop("extra_mod_c24", None)
        lg.setLevel(old_level)
    what = "soil " + " ".join(args)
    same(given, list(own) if own else None, "list of exporters given by the caller, after %s" % what)
    built = [b for b in BUILT if b != "module"]
    same("module" in BUILT, bool(case["module"]), "module imported")
    same(level, getattr(logging, (case["level"] or "INFO").upper()), "logging level with %s" % what)
    same(sorted(ticks.levels), sorted(l for _ in built for l in (10, 20, 30, 40) if l >= level), "levels of the messages of the models with %s" % what)
    after = tree(work)
    new = sorted(p for p in set(after) - set(before) if after[p] != "dir")
    for p, c in before.items():
        same(after.get(p), c, "a file that was there before")
    if case["convert"]:
        same(len(built), 0, "models built while converting")
        same(new, [], "files written while converting")
        same(list(res), [], "results of converting")
        docs = [d for d in yaml.safe_load_all(stdout.getvalue()) if d]
        same(len(docs), len(expected), "converted simulations")
        for d, (m, kw) in zip(docs, expected):
            for k, v in kw.items():
                same(norm_yaml(d.get(k)), norm_yaml(v), "%s: %s of the converted simulation" % (what, k))
            if case["kind"] != "class":
                require(S.Simulation(**d).model is m, "the model of the converted simulation is {!r}", d["model"])
        obs.tag("convert")
        obs.hit(len(args) > 1)
        return
    same(len(res), len(expected), "simulations run by %s" % what)
    if case["dry"]:
        same(len(built), 0, "models built in a dry run")
        same([list(r) for r in res], [[] for _ in expected], "results of a dry run")
        same(new, [], "files written in a dry run")
        obs.tag("dry")
        obs.hit(len(args) > 1)
        return
    other = os.path.join(obs.scratch, "reference")
    for got, (m, kw) in zip(res, expected):
        with silent():
            cls = m
            if case["kind"] == "class":
                cls = type(kw["name"], (m,), {})
            want = S.Simulation(model=cls, exporters=[], dump=False, **copy.deepcopy(kw)).run()
        n = kw.get("iterations", 1) * len((kw.get("matrix") or {"mu": [0]})["mu"])
        same(len(want), n, "runs in the reference")
        same(len(got), n, "models returned by %s" % what)
        for g, w in zip(got, want):
            a, b = outcome(g), outcome(w)
            if a != b:
                raise Violation("%s (%s): got %r, expected %r" % (what, kw, a, b))
            if kw.get("max_steps") is not None:
                require(g.schedule.steps <= kw["max_steps"] and w.schedule.steps <= kw["max_steps"], "ran {} steps", g.schedule.steps)
            for k, v in case["sets"]:
                top = k.split(".")[0]
                same(show(getattr(g, top)), show(kw["parameters"][top]), "parameter %s with %s" % (top, what))
    if case["no_dump"]:
        same(new, [], "files written by %s" % what)
    else:
        rel = os.path.relpath(out, work)
        for p in new:
            require(p.startswith(rel + os.sep), "{}: {} is not inside of the output folder", what, p)
        have = {os.path.relpath(os.path.join(work, p), out) for p in new}
        miss = names_for(case, expected, allexp) - have
        require(not miss, "{}: not written: {}", what, sorted(miss))
        for ext, exp in ((".csv", "csv"), (".gexf", "gexf"), (".sqlite", "default"), (".dumped.yml", "default"), ("dummy", "dummy")):
            if ext == ".dumped.yml" and "YAML" in allexp:
                exp = "YAML"
            some = [p for p in have if p.endswith(ext)]
            same(bool(some), exp in allexp, "%s: files of the exporter %s" % (what, exp))
            if exp in allexp:
                for m, kw in expected:
                    base = os.path.join(kw.get("group") or "", kw["name"]) + os.sep
                    require(any(p.startswith(base) for p in some), "{}: no file of {} for {}", what, exp, kw["name"])
        # every row once, whatever the number of times that an exporter is requested
        runs = {}
        for got, (m, kw) in zip(res, expected):
            runs.setdefault(os.path.join(kw.get("group") or "", kw["name"]), []).append((got, kw))
        for base, lst in runs.items():
            if "csv" in allexp:
                want = {}
                for got, kw in lst:
                    for g in got:
                        want["%s.env.csv" % g.id] = want.get("%s.env.csv" % g.id, 1) + len(g.datacollector.model_vars["time"])
                have = {f: len(open(os.path.join(out, base, f)).read().splitlines()) for f in os.listdir(os.path.join(out, base)) if f.endswith(".env.csv")}
                same(have, want, "%s: lines of the CSV files" % what)
            if "default" in allexp and not any(kw.get("backup") for _, kw in lst):
                want = []
                for got, kw in lst:
                    if kw.get("overwrite"):
                        want = []
                    want += [(str(g.id), len(g.datacollector.model_vars["time"])) for g in got]
                total = {}
                for i, k in want:
                    total[i] = total.get(i, 0) + k
                con = sqlite3.connect(os.path.join(out, base, os.path.basename(base) + ".sqlite"))
                have = dict(con.execute("select iteration_id, count(*) from env group by iteration_id"))
                con.close()
                same(have, total, "%s: rows in the database" % what)
        obs.tag("dumped")
    obs.tag(case["kind"])
    obs.hit(len(args) > 1 and any(len(m.trace) > 1 for r in res for m in r))


def norm_yaml(v):
    if isinstance(v, float) and v == int(v):
        return int(v)
    return v


# ---- nothing to run
def idle_cases():
    return fixed(what=st.sampled_from(["version", "missing", "missing_cfg", "version_file"]), dump=st.booleans())


def check_idle(case, obs):
    import soil
    p = os.path.join(obs.scratch, "sims.py")
    with open(p, "w") as f:
        f.write("from soil import Simulation\nfrom vf.props import c24\nSimulation(model=c24.World, max_steps=1, name='x').run()\n")
    before = tree(obs.scratch)
    args = {"version": ["--version"], "missing": ["nowhere.yml"], "missing_cfg": [], "version_file": [p, "--version"]}[case["what"]]
    old_argv, old_path, lg = sys.argv, list(sys.path), logging.getLogger("soil")
    old_level = lg.level
    del BUILT[:]
    try:
        sys.argv = ["soil"] + args + ([] if case["dump"] else ["--no-dump"])
        with silent():
            res = soil.main(**({"cfg": "nothere.py"} if case["what"] == "missing_cfg" else {}))
    finally:
        sys.argv, sys.path[:] = old_argv, old_path
        lg.setLevel(old_level)
    require(not res, "{} returned {!r}", args, res)
    same(BUILT, [], "models built")
    same(tree(obs.scratch), before, "files")
    obs.hit()


# ---- as a program
PROG = '''
import json, os
from soil import Simulation, agents, environment

class Ag(agents.BaseAgent):
    def step(self):
        with open(self.model.log, "a") as f:
            f.write(json.dumps([self.model.label, self.model.id, float(self.now), self.unique_id, self.model.alpha]) + "\\n")
        return self.pause

class World(environment.Environment):
    alpha = 0
    def init(self):
        for i in range(2):
            self.add_agent(Ag, pause=self.pause)

'''


def prog_cases():
    one = fixed(pause=st.sampled_from([1, 0.5, 2]), steps=st.sampled_from([1, 3]), iterations=st.sampled_from([1, 2]))
    return fixed(sims=st.lists(one, min_size=1, max_size=2), kind=st.sampled_from(["globals", "runs"]), max_time=st.sampled_from([None, "2", "1.5"]), max_steps=st.sampled_from([None, "2"]),
                 iterations=st.sampled_from([None, "3"]), set=st.sampled_from([None, 5, "x"]), no_dump=st.booleans(), output=st.sampled_from([None, "there"]), how=st.sampled_from(["-m", "main"]),
                 relative=st.booleans())


def check_prog(case, obs):
    log = os.path.join(obs.scratch, "log")
    src = os.path.join(obs.scratch, "src")
    work = os.path.join(obs.scratch, "work")
    os.makedirs(src), os.makedirs(work)
    p = os.path.join(src, "prog.py")
    with open(p, "w") as f:
        f.write(PROG)
        for i, s in enumerate(case["sims"]):
            kw = dict(name="p%d" % i, parameters=dict(label=i, log=log, pause=s["pause"]), max_steps=s["steps"], iterations=s["iterations"])
            f.write("s%d = Simulation(model=World, **%r)\n" % (i, kw) if case["kind"] == "globals" else "Simulation(model=World, **%r).run()\n" % kw)
    args = [os.path.relpath(p, work) if case["relative"] else p]
    for o in ("max_time", "max_steps", "iterations"):
        if case[o]:
            args += ["--" + o, case[o]]
    if case["set"] is not None:
        args += ["--set", "alpha=%r" % (case["set"],)]
    if case["no_dump"]:
        args.append("--no-dump")
    if case["output"]:
        args += ["-o", case["output"]]
    from vf.runner import REPO
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
    cmd = [sys.executable, "-m", "soil"] if case["how"] == "-m" else [sys.executable, "-c", "import sys; sys.argv[0] = 'soil'; from soil.__main__ import main; sys.exit(main())"]
    r = subprocess.run(cmd + args, cwd=work, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    same(r.returncode, 0, "exit code of soil %s (%s)" % (" ".join(args), r.stdout[-300:]))
    want = []
    for i, s in enumerate(case["sims"]):
        for it in range(int(case["iterations"] or s["iterations"])):
            n, t = 0, 0
            while n < int(case["max_steps"] or s["steps"]) and not (case["max_time"] and t >= float(case["max_time"])):
                # the first activation is at the first instant
                n += 1
                for u in range(2):
                    want.append([i, str(it), float(t), u, case["set"] if case["set"] is not None else 0])
                t += s["pause"]
    got = []
    if os.path.exists(log):
        with open(log) as f:
            got = [json.loads(l) for l in f]
    key = lambda x: (x[0], x[1], x[2], x[3])
    same(sorted(got, key=key), sorted(want, key=key), "activations of soil %s" % " ".join(args))
    files = sorted(x for x in tree(work) if x != ".")
    if case["no_dump"]:
        same(files, [], "files written")
    else:
        out = case["output"] or "soil_output"
        for i in range(len(case["sims"])):
            require(os.path.join(out, "p%d" % i, "p%d.sqlite" % i) in files, "results of simulation {} not in {}: {}", i, out, files)
        require(all(f == out or f.startswith(out + os.sep) for f in files), "files outside of the output folder: {}", files)
    obs.hit(len(got) > 2)


TARGETS = [Target("options", cases, check, quick=400, rule="some option is given and some model performs several activations (or nothing is run on purpose)"),
           Target("idle", idle_cases, check_idle, quick=16, rule="always: nothing may be run"),
           Target("program", prog_cases, check_prog, quick=24, rule="the program performs several activations")]
