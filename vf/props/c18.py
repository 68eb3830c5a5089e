"""C18: a simulation survives being written to a configuration and loaded back."""
import copy, json, os, subprocess
import yaml
from vf.lib import *
from vf.core import Target
from soil import serialization

TECHNIQUE = "round trip of generated simulations through dictionaries and YAML files, fields and results compared; generated configuration files against a field-by-field oracle"
ASSUMPTIONS = ["parameters are plain nested data; a class given as a parameter is written as its name; reporters are attribute names"]

TEXT = ["a", "", "yes", "null", "~", "1", "1.0", "2001-01-01", "a: b", "- x", "two\nlines\n", " lead", "it's", '"q"', "#no", "é€", "{x}", "%d", "!!python/x", "*a", "&b", "0x1", "1e3", "=", "on"]
leaf = st.one_of(st.integers(-5, 100), st.sampled_from([0.1, 1e-9, 1e300, -2.5, float(3)]), st.sampled_from(TEXT), st.booleans(), st.none())
keys = st.one_of(st.sampled_from(["p", "q", "1", "no", "x y"]), st.integers(0, 3).map(lambda i: "#%d" % i))
nested = st.recursive(leaf, lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(keys, s, max_size=3), st.lists(s, max_size=2).map(lambda l: {"__tuple__": l})), max_leaves=8)
params = st.dictionaries(st.sampled_from(["alpha", "beta", "gamma", "delta_x"]), nested, max_size=4)


def real(x):
    """JSON cannot hold tuples or integer keys."""
    if isinstance(x, dict):
        if set(x) == {"__tuple__"}:
            return tuple(real(v) for v in x["__tuple__"])
        return {(int(k[1:]) if k.startswith("#") else k): real(v) for k, v in x.items()}
    if isinstance(x, list):
        return [real(v) for v in x]
    return x


optional = dict(
    name=st.sampled_from(["sim", "1", "a b", "true"]), description=st.sampled_from(["", "some: text\nmore"]), group=st.sampled_from(["g", None]), seed=st.sampled_from(["s", "1", "", "007", "1e3"]),
    max_time=st.sampled_from([3, 2.5, 4, None]), max_steps=st.integers(0, 4), iterations=st.integers(1, 3), dump=st.just(False), overwrite=st.booleans(), backup=st.booleans(),
    dry_run=st.just(False), exporters=st.sampled_from([[], ["summary"], ["soil.exporters.summary"], ["class"]]), model_reporters=st.sampled_from([{}, {"s": "size"}]),
    agent_reporters=st.sampled_from([{}, {"n": "n"}]), tables=st.sampled_from([{}, {"t": ["a", "b"]}]), level=st.sampled_from([10, 20, 40]), num_processes=st.just(1),
    outdir=st.sampled_from(["/nowhere/out", "rel/out"]), exporter_params=st.just({}), skip_test=st.booleans(), version=st.just("2"))


class Ag(A.BaseAgent):
    n = 0

    def step(self):
        self.n += 1
        self.model.trace.append((float(self.now), self.unique_id, self.random.random()))
        return self.random.choice([1, 0.5, 2])


class World(E.BaseEnvironment):
    size = 2

    def init(self):
        self.trace = []
        self.add_agents(Ag, k=self.size)


class Other(World):
    size = 3


LOCAL = '''
import soil
from soil import agents as A, environment as E

class Ag(A.BaseAgent):
    n = 0

    def step(self):
        self.n += 1
        self.model.trace.append((float(self.now), self.unique_id, self.random.random()))
        return self.random.choice([1, 0.5, 2])


class World(E.BaseEnvironment):
    size = %d

    def init(self):
        self.trace = []
        self.add_agents(Ag, k=self.size)
'''


def cases():
    return fixed(params=params, matrix=st.dictionaries(st.sampled_from(["alpha", "mu", "nu"]), st.lists(nested, min_size=1, max_size=2), max_size=2),
                 fields=st.fixed_dictionaries({}, optional=optional), model=st.sampled_from(["World", "Other", "source", "name"]), via=st.sampled_from(["dict", "dict_config", "yaml", "file", "from_file", "twice"]),
                 cls_param=st.sampled_from([None, None, "top", "dict", "list", "deep", "matrix", "dicts", "lists"]), run=st.booleans(), ext=st.sampled_from([".yml", ".yaml", ".conf"]))


FIELDS = ["version", "source_file", "name", "description", "group", "backup", "overwrite", "dry_run", "dump", "parameters", "matrix", "seed", "dir_path", "max_time", "max_steps", "iterations",
          "num_processes", "model_reporters", "agent_reporters", "tables", "outdir", "exporter_params", "level", "skip_test", "debug"]


def typed(x):
    if isinstance(x, dict):
        return {k: v for k, v in sorted((repr(k), typed(v)) for k, v in x.items())}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [typed(v) for v in x]
    if isinstance(x, type):
        return ("class", id(x))
    return (type(x).__name__, repr(x))


def fields(sim):
    d = {f: typed(getattr(sim, f)) for f in FIELDS}
    d["model"] = sim.model
    d["exporters"] = [serialization.deserialize(e, known_modules=["soil.exporters"]) for e in sim.exporters]
    return d


def diff(a, b, what):
    for k in a:
        if a[k] != b[k]:
            raise Violation("%s: %s: got %r, expected %r" % (what, k, b[k], a[k]))


def results(sim):
    with silent():
        out = []
        for m in sim.run(exporters=[], dump=False):
            given = {k: typed(v) for k, v in m.__dict__.items() if k in ("alpha", "beta", "gamma", "delta_x", "mu", "nu")}
            out.append((repr(sorted(given.items())), m.id, m.trace))
        return sorted(out, key=repr)


SHAPES = {"top": Ag, "dict": {"a": Ag, "b": 1}, "list": [Ag, 2, World, int, "x"], "deep": {"x": [{"y": [Ag], "z": None}, [Other, 0.5], "n"]}, "dicts": [{"agent_class": Ag, "weight": 1}, {"agent_class": Other}], "lists": {"v": [[1, Ag], [[World]]]}, "matrix": [[Ag, World], [Other], {"k": Ag}]}


def resolve(got, like):
    """The classes that are named in `got`, where `like` has classes."""
    if isinstance(like, type):
        return like if isinstance(got, str) and ((like is int and got == "int") or like is not int and serialization.deserialize(got) is like) else got
    if isinstance(like, dict) and isinstance(got, dict):
        return {k: resolve(v, like.get(k)) for k, v in got.items()}
    if isinstance(like, list) and isinstance(got, list) and len(got) == len(like):
        return [resolve(g, l) for g, l in zip(got, like)]
    return got


def classes_in(x):
    if isinstance(x, dict):
        return [c for v in x.values() for c in classes_in(v)]
    if isinstance(x, (list, tuple)):
        return [c for v in x for c in classes_in(v)]
    return [x] if isinstance(x, type) else []


def check(case, obs):
    kw = dict(case["fields"])
    if kw.get("exporters") == ["class"]:
        from soil import exporters
        kw["exporters"] = [exporters.summary, exporters.default]
    kw["parameters"], kw["matrix"] = real(case["params"]), real(case["matrix"])
    kw.setdefault("max_steps", 3)
    kw.setdefault("name", "sim")
    if case["model"] == "source":
        with open(os.path.join(obs.scratch, "local_model.py"), "w") as f:
            f.write(LOCAL % 2)
        kw["model"], kw["source_file"] = "World", "local_model.py"
    elif case["model"] == "name":
        kw["model"] = "vf.props.c18.Other"
    else:
        kw["model"] = {"World": World, "Other": Other}[case["model"]]
    want_params = dict(kw["parameters"])
    shape = case["cls_param"] and SHAPES[case["cls_param"]]
    if shape is not None:
        kw["parameters"] = dict(kw["parameters"], kind=shape)
    sim = S.Simulation(**copy.deepcopy(kw))
    before = fields(sim)
    d = sim.to_dict()
    require(not classes_in(d), "classes that were not written as names: {}", classes_in(d))
    text = sim.to_yaml()
    diff(before, fields(sim), "saving changed the simulation")
    same(yaml.load(text, Loader=yaml.FullLoader), yaml.load(yaml.dump(d), Loader=yaml.FullLoader), "YAML text and dictionary")
    via = case["via"]
    if via == "dict":
        back = S.Simulation(**d)
    elif via == "dict_config":
        back = S.from_config(d)
    elif via == "yaml":
        docs = list(serialization.load_string(text))
        same(len(docs), 1, "documents")
        back = S.Simulation(**docs[0])
    else:
        p = os.path.join(obs.scratch, "saved" + case["ext"])
        with open(p, "w") as f:
            f.write(text)
        back = S.from_config(p) if via != "from_file" else S.from_file(p)[0]
        if via == "twice":
            with open(p, "w") as f:
                f.write(back.to_yaml())
            back = S.from_config(p)
    after = fields(back)
    if case["cls_param"]:
        n = back.parameters.pop("kind")
        require(resolve(n, shape) == shape, "the classes given in a parameter came back as {!r}", n)
        after, before = dict(after, parameters=None), dict(before, parameters=None)
        same(typed(back.parameters), typed(want_params), "parameters")
    if case["model"] == "source":
        same(back.model.__name__, "World", "model")
        after["model"] = before["model"]
        require(back.source_file == sim.source_file, "source file")
    diff(before, after, "loaded through " + via)
    if case["run"]:
        if case["cls_param"]:
            back.parameters["kind"] = shape
        a, b = results(sim), results(back)
        same(len(a), len(b), "number of runs")
        for x, y in zip(a, b):
            if x != y:
                raise Violation("results of the loaded simulation differ: %r / %r" % (x, y))
        obs.tag("runs")
    obs.hit(bool(case["params"] or case["matrix"]) and len(case["fields"]) > 2)


# ---- loading configurations
def load_cases():
    doc = fixed(fields=st.fixed_dictionaries({}, optional={k: v for k, v in optional.items() if k not in ("exporters", "tables", "exporter_params")}), params=st.one_of(st.none(), params),
                source=st.sampled_from([None, None, "model_a.py", "sub/model_b.py"]), dir_path=weighted((None, 4), ("elsewhere", 1), ("relative", 1)))
    return fixed(docs=st.lists(doc, min_size=1, max_size=3), form=st.sampled_from(["file", "file", "iter_file", "dict", "glob", "deepglob"]), where=st.sampled_from(["conf", "deep/er", "."]),
                 over=st.fixed_dictionaries({}, optional={k: optional[k] for k in ("iterations", "max_steps", "seed", "dump", "backup", "description")}), relative=st.booleans())


DEFAULTS = {"version": "2", "description": "", "group": None, "backup": False, "overwrite": False, "dry_run": False, "dump": False, "parameters": {}, "matrix": {}, "seed": "default", "max_time": None,
            "max_steps": None, "iterations": 1, "num_processes": 1, "model_reporters": {}, "agent_reporters": {}, "tables": {}, "exporter_params": {}, "level": 20, "skip_test": False, "debug": False}


def check_load(case, obs):
    home = os.path.normpath(os.path.join(obs.scratch, case["where"]))
    for sub in ("", "sub"):
        os.makedirs(os.path.join(home, sub), exist_ok=True)
    for f, size in (("model_a.py", 4), ("sub/model_b.py", 5)):
        with open(os.path.join(home, f), "w") as h:
            h.write(LOCAL % size)
    os.makedirs(os.path.join(obs.scratch, "elsewhere", "sub"), exist_ok=True)
    for f, size in (("model_a.py", 6), ("sub/model_b.py", 7)):
        with open(os.path.join(obs.scratch, "elsewhere", f), "w") as h:
            h.write(LOCAL % size)
    docs = []
    for d in case["docs"]:
        c = dict(d["fields"])
        if d["params"] is not None:
            c["parameters"] = real(d["params"])
        c["model"] = "vf.props.c18.Other"
        if d["source"]:
            c["source_file"], c["model"] = d["source"], "World"
        if d["dir_path"]:
            c["dir_path"] = os.path.join(obs.scratch, "elsewhere")
            if d["dir_path"] == "relative":
                c["dir_path"] = os.path.relpath(c["dir_path"], home if case["form"] == "dict" else None)
        docs.append(c)
    over = dict(case["over"])
    if case["form"] == "dict":
        docs = docs[:1]
        os.chdir(home)
        cfg = copy.deepcopy(docs[0])
        sims = list(S.iter_from_config(cfg, **over))
        same(typed(cfg), typed(docs[0]), "the given configuration")
    else:
        p = os.path.join(home, "c.yml")
        with open(p, "w") as f:
            yaml.dump_all(docs, f)
        arg = os.path.relpath(p) if case["relative"] else p
        if case["form"] == "glob":
            arg = os.path.join(os.path.dirname(arg), "*.yml")
        elif case["form"] == "deepglob":
            arg = os.path.join(os.path.relpath(obs.scratch) if case["relative"] else obs.scratch, "**", "c.yml")
        sims = list(S.iter_from_file(arg, **over)) if case["form"] == "iter_file" else list(S.iter_from_config(arg, **over))
    same(len(sims), len(docs), "simulations loaded")
    for sim, c in zip(sims, docs):
        want = dict(DEFAULTS, **c)
        want.update(over)
        for f, dv in DEFAULTS.items():
            same(typed(getattr(sim, f)), typed(want[f]), "field %s" % f)
        dirp = c.get("dir_path", home)
        require(os.path.realpath(sim.dir_path or ".") == os.path.realpath(dirp), "dir_path is {!r}, expected {!r}", sim.dir_path, dirp)
        if "source_file" in c:
            size = ({"model_a.py": 4, "sub/model_b.py": 5} if "dir_path" not in c else {"model_a.py": 6, "sub/model_b.py": 7})[c["source_file"]]
            same(sim.model.__name__, "World", "model of the source file")
            same(sim.model.size, size, "the model comes from the file next to the configuration")
            same(os.path.realpath(sim.source_file), os.path.realpath(os.path.join(dirp, c["source_file"])), "source file")
            obs.tag("source")
        else:
            require(sim.model is Other, "model is {!r}", sim.model)
        if "name" not in want:
            require(sim.name, "no name")
        else:
            same(sim.name, want["name"], "name")
    obs.hit(any(len(c) > 2 for c in docs))


# ---- a simulation saved by the YAML exporter, loaded in another process
def far_cases():
    return fixed(params=params, matrix=st.dictionaries(st.sampled_from(["alpha", "mu"]), st.lists(nested, min_size=1, max_size=2), max_size=1),
                 fields=st.fixed_dictionaries({}, optional={k: v for k, v in optional.items() if k not in ("exporters", "dump", "outdir", "backup")}),
                 model=st.sampled_from(["World", "source", "name"]), exporter=st.sampled_from(["YAML", "default"]))


def check_far(case, obs):
    kw = dict(case["fields"])
    kw["parameters"], kw["matrix"] = real(case["params"]), real(case["matrix"])
    kw.setdefault("max_steps", 3)
    kw.setdefault("name", "sim")
    if case["model"] == "source":
        with open(os.path.join(obs.scratch, "local_model.py"), "w") as f:
            f.write(LOCAL % 2)
        kw["model"], kw["source_file"] = "World", "local_model.py"
    else:
        kw["model"] = World if case["model"] == "World" else "vf.props.c18.Other"
    out = os.path.join(obs.scratch, "out")
    with silent():
        sim = S.Simulation(dump=True, outdir=out, exporters=[case["exporter"]], **kw)
        sim.run()
    found = [os.path.join(d, f) for d, _, fs in os.walk(out) for f in fs if f.endswith(".yml")]
    same(len(found), 1, "YAML files written")
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    res = os.path.join(obs.scratch, "far.json")
    code = ("import sys; sys.path.insert(0, %r); import vf.runner; from vf.props import c18; c18.far(%r, %r)" % (here, found[0], res))
    p = subprocess.run([sys.executable, "-P", "-c", code], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    require(os.path.exists(res), "the saved simulation cannot be loaded in another process: {}", p.stderr[-300:])
    with open(res) as f:
        got = json.load(f)
    want = jsonable(sim)
    diff(want["fields"], got["fields"], "loaded in another process")
    same(got["results"], want["results"], "results in another process")
    obs.hit(len(case["params"]) > 0)


def jsonable(sim):
    d = fields(sim)
    d["model"] = sim.model.__name__
    d["exporters"] = [e.__name__ for e in d["exporters"]]
    return json.loads(json.dumps({"fields": {k: repr(v) for k, v in d.items()}, "results": results(sim)}))


def far(path, out):
    sim = S.from_config(path)
    r = jsonable(sim)
    with open(out, "w") as f:
        json.dump(r, f)


TARGETS = [Target("roundtrip", cases, check, quick=1600, rule="the simulation has parameters or a matrix and at least three explicit fields"),
           Target("loading", load_cases, check_load, quick=800, rule="some document sets at least two fields besides the model"),
           Target("elsewhere", far_cases, check_far, quick=32, rule="the simulation has parameters")]
