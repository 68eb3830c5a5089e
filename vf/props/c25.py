"""C25: loading a file never runs its simulations and leaves the process as it was."""
import copy, importlib, itertools, os
from vf.lib import *
from vf.core import Target

TECHNIQUE = "generated programs (with errors at generated points) loaded in generated sequences, against an oracle computed from the program's statements; process state compared after each operation"
ASSUMPTIONS = ["a simulation kept as a global is not also run by the file; modules that the file imports stay imported, as usual in Python"]

LOG = []   # (label, iteration id, time, agent id, draw): written by the models of the generated files

HEAD = '''
import soil
from soil import Simulation, agents, environment
from vf.props import c25

class Ag(agents.BaseAgent):
    def step(self):
        c25.LOG.append((self.model.label, self.model.id, float(self.now), self.unique_id, round(self.random.random(), 6)))
        return self.model.pause

class World(environment.Environment):
    label = "{tag}"
    pause = 1
    size = {size}
    mu = None
    def init(self):
        c25.LOG.append((self.label, self.id, "init", self.mu, self.size))
        for i in range(self.size):
            self.add_agent(Ag)
'''

stmt = st.one_of(
    fixed(op=st.sampled_from(["global", "global", "run", "run", "modelrun", "soilrun", "loop", "repeat", "function", "main"]),
          name=st.integers(0, 7), pause=st.sampled_from([1, 0.5, 2, 3]), matrix=weighted((None, 3), ([1, 2], 1), (["a"], 1)), other=st.booleans(),
          fields=st.fixed_dictionaries({}, optional=dict(iterations=st.integers(1, 2), max_time=st.sampled_from([1, 2, 2.5]), seed=st.sampled_from(["s", "other"]))), steps=st.integers(1, 3)),
    fixed(op=st.sampled_from(["print", "submodel", "notsim", "libfirst", "liblast"]), name=st.integers(0, 7)))
ERRORS = ["ValueError('x')", "RuntimeError('x')", "SystemExit(3)", "ImportError('x')", "KeyboardInterrupt()", "AttributeError('x')", "TypeError('x')", "syntax", "name", "file"]
program = fixed(body=st.lists(stmt, max_size=5), size=st.integers(1, 2), error=weighted((None, 5), *[(e, 1) for e in ERRORS]), at=st.integers(0, 5), folder=st.sampled_from(["a", "b", "."]), helper=st.booleans(), himport=st.booleans())
op = fixed(op=st.sampled_from(["py", "py", "file", "from_file", "from_py", "iter_partial", "run_from_file", "run", "yaml", "two"]), which=st.integers(0, 2), over=st.fixed_dictionaries({}, optional={"iterations": st.integers(1, 2), "seed": st.just("o")}),
           relative=st.booleans(), execute=st.booleans(), later=st.booleans())


def cases():
    return fixed(programs=st.lists(program, min_size=1, max_size=3), ops=st.lists(op, min_size=1, max_size=5))


def kwargs_of(s, tag, i):
    kw = dict(s["fields"], max_steps=s["steps"], parameters={"pause": s["pause"], "label": "%s-%d" % (tag, i)})
    if s["matrix"]:
        kw["matrix"] = {"mu": list(s["matrix"])}
    return kw


def write(root, k, prog):
    """Writes the program; returns its path and the simulations it asks for, in order: [(size, kwargs)]; None if it fails."""
    tag = "p%d" % k
    folder = os.path.normpath(os.path.join(root, prog["folder"]))
    os.makedirs(folder, exist_ok=True)
    lines = [HEAD.format(tag=tag, size=prog["size"])]
    if prog["helper"]:
        with open(os.path.join(folder, "helper_c25_%d.py" % k), "w") as f:
            f.write("VALUE = %d\n" % k)
            f.write(HEAD.format(tag=tag + "-helperworld", size=4).replace("World", "HelperWorld").replace("Ag(", "HelperAg(").replace("(Ag)", "(HelperAg)"))
        lines.append("import helper_c25_%d\nassert helper_c25_%d.VALUE == %d" % (k, k, k))
    globs, queued, models = {}, [], {"World": prog["size"]}
    if prog["helper"] and prog.get("himport"):
        # a model that is defined somewhere else, and used here
        lines.append("from helper_c25_%d import HelperWorld" % k)
        models["HelperWorld"] = 4
    failed = None
    for i, s in enumerate(prog["body"] + [None] * 6):
        if prog["error"] is not None and i == prog["at"]:
            failed = prog["error"]
            if failed == "syntax":
                lines.append("def broken(:")
            elif failed == "name":
                lines.append("undefined_name_c25")
            elif failed == "file":
                lines.append("open('/nowhere/nothing')")
            else:
                lines.append("raise " + failed)
        if s is None:
            continue
        o = s["op"]
        if o == "print":
            lines.append("print('loading')")
            continue
        if o == "submodel":
            lines.append("class Sub%d(World):\n    size = 3\n    label = '%s-sub%d'" % (s["name"], tag, s["name"]))
            models["Sub%d" % s["name"]] = 3
            continue
        if o in ("libfirst", "liblast"):
            # a file may add folders of its own to the path: those are its business, and stay
            lines.append("import sys\nif %r not in sys.path:\n    sys.path.%s" % (LIB + tag, ("insert(0, %r)" if o == "libfirst" else "append(%r)") % (LIB + tag)))
            continue
        if o == "notsim":
            lines.append("thing%d = [Simulation, None, {'a': 1}]" % s["name"])
            continue
        kw = kwargs_of(s, tag, i)
        combos = [dict(kw["parameters"], mu=v) for v in s["matrix"]] if s["matrix"] else [dict(kw["parameters"])]
        each = [(prog["size"], {**{a: b for a, b in kw.items() if a not in ("matrix", "parameters")}, "parameters": c, "name": "World"}) for c in combos]
        if o == "global":
            n = "sim_%d" % s["name"]
            lines.append("%s = Simulation(model=World, **%r)" % (n, kw))
            globs[n] = (prog["size"], dict(kw, name="World"))
        elif o == "run":
            lines.append("r = Simulation(model=World, **%r).run()\nassert not r" % kw)
            queued += each
        elif o == "modelrun":
            lines.append("World.run(**%r)" % kw)
            queued += each
        elif o == "soilrun":
            lines.append("soil.run(World, **%r)" % kw)
            queued += [(z, dict(k2, name="test")) for z, k2 in each]
        elif o == "loop":
            lines.append("for extra in range(2):\n    Simulation(model=World, name='n%%d' %% extra, **%r).run()" % kw)
            queued += [(z, dict(k2, name="n%d" % e)) for e in range(2) for z, k2 in each]
        elif o == "repeat":
            # the same simulation is asked for twice
            lines.append("for extra in range(2):\n    Simulation(model=World, **%r).run()" % kw)
            queued += each + copy.deepcopy(each)
        elif o == "function":
            lines.append("def go():\n    s = Simulation(model=World, **%r)\n    for env in s.run(iterations=2):\n        print(env)\ngo()" % kw)
            queued += [(z, dict(k2, iterations=2)) for z, k2 in each]
        elif o == "main":
            lines.append("if __name__ == '__main__':\n    Simulation(model=World, **%r).run()" % kw)
    if failed is None and not globs and not queued:
        # only models: each becomes a simulation, limited by the caller
        expected = [("model", n, models[n], tag + ("" if n == "World" else "-" + n.lower())) for n in sorted(models)]
    else:
        expected = [globs[n] for n in sorted(globs)] + queued
    p = os.path.join(folder, "prog%d.py" % k)
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    return p, (None if failed else expected)


class Ag(A.BaseAgent):
    def step(self):
        LOG.append((self.model.label, self.model.id, float(self.now), self.unique_id, round(self.random.random(), 6)))
        return self.model.pause


class World(E.Environment):
    label = "direct"
    pause = 1
    size = 2
    mu = None

    def init(self):
        LOG.append((self.label, self.id, "init", self.mu, self.size))
        for i in range(self.size):
            self.add_agent(Ag)


def reference(size, kw):
    """What the simulation does when it is run directly."""
    del LOG[:]
    kw = copy.deepcopy(kw)
    cls = type(kw.get("name") or "World", (World,), {"size": size})
    with silent():
        S.Simulation(model=cls, dump=False, exporters=[], **kw).run()
    out = list(LOG)
    del LOG[:]
    return out


LIB = "/nowhere/lib-c25-"


def state():
    return {"path": [p for p in sys.path if not p.startswith(LIB)], "modules": {m for m in sys.modules if not m.startswith("helper_c25")}, "cwd": os.getcwd(), "environ": dict(os.environ), "meta": len(sys.meta_path), "hooks": len(sys.path_hooks)}


def compare(before, what):
    now = state()
    for k in before:
        if now[k] != before[k]:
            d = ""
            if k == "modules":
                d = "new %r, gone %r" % (sorted(now[k] - before[k])[:5], sorted(before[k] - now[k])[:5])
            elif k == "path":
                d = "%r" % [x for x in now[k] if x not in before[k]] or "%r" % now[k]
            raise Violation("%s: the process changed: %s %s" % (what, k, d))


WARM = []


def warm(root):
    """Loads what soil imports lazily, so that it does not count as a change."""
    if WARM:
        return
    WARM.append(1)
    with silent():
        S.Simulation(model=World, max_steps=1, dump=False).run()
        p, _ = write(root, 99, {"body": [], "size": 1, "error": None, "at": 0, "folder": "warm", "helper": False})
        list(S.iter_from_py(p))
        try:
            S.from_file(os.path.join(root, "nothing.yml"))
        except Exception:
            pass


def check(case, obs):
    warm(obs.scratch)
    progs = [write(obs.scratch, k, p) for k, p in enumerate(case["programs"])]
    yml = os.path.join(obs.scratch, "conf.yml")
    with open(yml, "w") as f:
        f.write("---\nname: fromyaml\nmodel: vf.props.c25.World\nmax_steps: 2\nparameters:\n  label: yaml\n")
    # Python remembers what relative folders meant, and what folders contained
    for k in [k for k in sys.path_importer_cache if not os.path.isabs(k) or "/vf-" in k]:
        sys.path_importer_cache.pop(k, None)
    importlib.invalidate_caches()
    pending = []
    loads = 0
    libs = set()
    start = state()
    try:
        for n, o in enumerate(case["ops"]):
            what = "operation %d (%s)" % (n, o["op"])
            before = state()
            del LOG[:]
            if o["op"] == "run":
                with silent():
                    res = S.Simulation(model=World, max_steps=2, dump=False, exporters=[], parameters={"label": "direct%d" % n}).run()
                same(len(res), 1, what + ": a simulation run normally returns its models")
                got = list(LOG)
                same(got, reference(2, {"max_steps": 2, "name": "World", "parameters": {"label": "direct%d" % n}}), what + ": a normal run after %d loads" % loads)
                continue
            path, expected = progs[o["which"] % len(progs)]
            arg = os.path.relpath(path) if o["relative"] else path
            over = dict(o["over"])
            paths = [arg]
            if o["op"] == "yaml":
                paths, expected, over = [yml], [(2, {"name": "fromyaml", "max_steps": 2, "parameters": {"label": "yaml"}})], {}
            elif o["op"] == "two":
                p2, e2 = progs[(o["which"] + 1) % len(progs)]
                paths = [arg, p2]
                expected = None if expected is None or e2 is None else expected + e2
            err, sims = None, []
            with silent():
                try:
                    if o["op"] == "py":
                        sims = list(S.iter_from_py(arg, **over))
                    elif o["op"] == "file":
                        sims = list(S.iter_from_file(arg, **over))
                    elif o["op"] in ("from_file", "yaml", "two"):
                        sims = S.from_file(*paths, **over)
                    elif o["op"] == "from_py":
                        over = {}
                        sims = [S.from_py(arg)]
                    elif o["op"] == "iter_partial":
                        it = S.iter_from_py(arg, **over)
                        sims = list(itertools.islice(it, 1 + n % 2))
                        it.close()
                    elif o["op"] == "run_from_file":
                        S.run_from_file(arg, exporters=[], dump=False, max_steps=2)
                except BaseException as ex:
                    err = ex
            loads += 1
            if o["op"] == "yaml":
                sys.path[:] = before["path"]   # the folder of a configuration stays importable
            compare(before, what)
            if o["op"] not in ("yaml", "two") and expected is not None:
                k = o["which"] % len(progs)
                same(sys.path.count(LIB + "p%d" % k), int(LIB + "p%d" % k in libs or any(x["op"].startswith("lib") for x in case["programs"][k]["body"])), what + ": folders added to the path by the file itself")
            libs = {x for x in sys.path if x.startswith(LIB)}
            if expected is None:
                require(err is not None, "{}: the file fails but loading it did not", what)
                own = case["programs"][o["which"] % len(progs)]["error"]
                if own and o["op"] != "two":
                    kind = {"syntax": "SyntaxError", "name": "NameError", "file": "FileNotFoundError"}.get(own, own.split("(")[0])
                    same(type(err).__name__, kind, what + ": error of a file that fails")
                obs.tag("failed")
                if o["op"] == "run_from_file":
                    del LOG[:]
                same(LOG, [], what + ": activations while loading a file that fails")
                continue
            if err is not None:
                if isinstance(err, Exception):
                    raise Violation("%s: loading failed with %r" % (what, err))
                raise err
            expected = [(e[2], dict(name=e[1], parameters={"label": e[3]}, max_steps=2)) if e[0] == "model" else e for e in expected]
            if o["op"] == "run_from_file":
                got = list(LOG)
                want = []
                for size, kw in expected:
                    want += reference(size, dict(kw, max_steps=2))
                same(got, want, what)
                obs.tag("run_from_file")
                continue
            same(LOG, [], what + ": loading ran something")
            if o["op"] == "from_py":
                expected = expected[:1]
            elif o["op"] == "iter_partial":
                expected = expected[:1 + n % 2]
            expected = [(size, dict(kw, **over)) for size, kw in expected]
            same(len(sims), len(expected), what + ": simulations loaded")
            for s, (size, kw) in zip(sims, expected):
                require(isinstance(s, S.Simulation), "{}: {!r} is not a simulation", what, s)
                for k, v in kw.items():
                    if k == "parameters" and "pause" not in v and o["op"] != "yaml" or k == "max_steps" and "pause" not in kw["parameters"] and o["op"] != "yaml":
                        continue
                    same(getattr(s, k), v, "%s: %s of the loaded simulation" % (what, k))
                if "matrix" not in kw:
                    same(dict(s.matrix), {}, what + ": matrix")
                require(s.model.size == size and s.model.__name__ in ("World", s.name), "{}: model {!r}", what, s.model)
            if o["execute"]:
                batch = list(zip(sims, expected))
                if o["later"]:
                    pending.append((what, batch))
                else:
                    execute(what, batch)
                    compare(before, what + ", after running")
                    obs.tag("executed")
        for what, batch in pending:
            execute(what + ", run at the end", batch)
            obs.tag("later")
        compare(start, "after everything")
    finally:
        sys.path[:] = start["path"]
        for m in [m for m in sys.modules if m.startswith("helper_c25")]:
            del sys.modules[m]
    obs.hit(loads > 1 and len(case["ops"]) > 1)


def execute(what, batch):
    for sim, (size, kw) in batch:
        del LOG[:]
        kw = copy.deepcopy(kw)
        with silent():
            sim.run(exporters=[], dump=False, max_steps=kw["max_steps"])
        got = list(LOG)
        same(got, reference(size, kw), what + ": running the loaded simulation %r" % sim.name)


TARGETS = [Target("loads", cases, check, quick=1600, rule="at least two files are loaded in the sequence")]
