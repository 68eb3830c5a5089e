"""C13: every parameter combination is run the requested number of times."""
import copy, json
from vf.lib import *
from vf.core import Target

TECHNIQUE = "generated parameters and matrices compared with a brute-force expansion; exporter notifications recorded and checked as a history"
ASSUMPTIONS = ["parameter values are plain data; values that are equal but of different type (1, True, 1.0) may or may not share an identifier"]

leaf = st.one_of(st.integers(-2, 4), st.sampled_from(["a", "b", "", None, True, 1.5, "1", [1], [], {"x": 1}, ["a", "b"], 10 ** 12, "a, b"]))
values = st.one_of(*[st.lists(leaf, min_size=k, max_size=3) for k in (0, 1, 2, 2, 2)])
KEYS = ("alpha", "beta", "gamma", "delta", "num_processes", "func", "iterable", "iteration_id", "params", "self_", "name", "iterations", "model", "max_time", "n", "args", "kwargs", "_hidden")
key = weighted(*[(k, 5 if i < 4 else 1) for i, k in enumerate(KEYS)])


def cases():
    return fixed(params=st.dictionaries(key, leaf, max_size=3), matrix=st.dictionaries(key, values, max_size=3), iterations=st.integers(1, 3), over=st.one_of(st.just({}), fixed(iterations=st.integers(1, 3)),
                 fixed(parameters=st.dictionaries(key, leaf, max_size=2)), fixed(matrix=st.dictionaries(key, st.lists(leaf, min_size=1, max_size=2), max_size=2))),
                 exporters=st.lists(st.sampled_from(["A", "A", "B", "name", "summary"]), max_size=3, unique=True), how=st.sampled_from(["sim", "sim", "cls", "func"]),
                 steps=st.integers(0, 2), reverse=st.booleans(), seed=st.sampled_from(["default", "z"]), name=st.sampled_from([None, "m", "m"]),
                 procs=st.sampled_from([None, None, 1, 2, 4]))


LOG = []
NONE = "__none__"


class RecA:
    """The minimal interface of an exporter."""
    tag = "A"

    def __init__(self, simulation, **kwargs):
        LOG.append((self.tag, "new", simulation))

    def sim_start(self):
        LOG.append((self.tag, "start"))

    def iteration_start(self, env):
        pass

    def iteration_end(self, env, params, params_id):
        LOG.append((self.tag, "iteration", env, copy.deepcopy(params), params_id))

    def sim_end(self):
        LOG.append((self.tag, "end"))


class RecB(RecA):
    tag = "B"


class RecName(RecA):
    tag = "name"


class Ag(A.BaseAgent):
    def step(self):
        self.model.stepped += 1


class World(E.BaseEnvironment):
    def init(self):
        self.stepped = 0
        self.given = copy.deepcopy({k: v for k, v in self.__dict__.items() if k in KEYS})
        self.add_agent(Ag)


EXP = {"A": RecA, "B": RecB, "name": "vf.props.c13.RecName", "summary": "dummy"}


def typed(x):
    return json.dumps(x, sort_keys=True)


def expand(params, matrix):
    combos = [dict(params)]
    for k, vs in matrix.items():
        combos = [dict(c, **{k: v}) for c in combos for v in vs]
    return combos


def check(case, obs):
    del LOG[:]
    n = case["over"].get("iterations", case["iterations"])
    params = case["over"].get("parameters", case["params"])
    matrix = case["over"].get("matrix", case["matrix"])
    if case["how"] != "sim":
        params, matrix, n = case["params"], case["matrix"], case["iterations"]
    want = expand(params, matrix)
    exps = [EXP[e] for e in case["exporters"]]

    def go(reverse=False):
        rev = (lambda d: dict(reversed(list(d.items())))) if reverse else (lambda d: d)
        kw = dict(parameters=rev(copy.deepcopy(case["params"])), matrix=rev(copy.deepcopy(case["matrix"])), iterations=case["iterations"], max_steps=case["steps"],
                  exporters=list(exps), dump=False, seed=case["seed"])
        if case["name"]:
            kw["name"] = case["name"]
        if case["procs"]:
            kw["num_processes"] = case["procs"]
        if case["iterations"] == 1:
            del kw["iterations"]         # that is the default
        with silent():
            if case["how"] == "sim":
                return S.Simulation(model=World, **kw).run(**copy.deepcopy(case["over"]))
            if case["how"] == "cls":
                return World.run(**kw)
            return S.run(World, **kw)

    res = go()
    log = list(LOG)
    got = [m.given for m in res]
    same(sorted(map(typed, got)), sorted(typed(c) for c in want for _ in range(n)), "parameter sets that were run")
    for c in {typed(c) for c in want}:
        ids = sorted(m.id for m in res if typed(m.given) == c)
        times = sum(1 for x in want if typed(x) == c)
        same(ids, sorted(str(i) for i in range(n) for _ in range(times)), "iterations run for %s" % c)
    for m in res:
        require(isinstance(m, World), "a result is not a model: {}", m)
        same(m.schedule.steps, case["steps"], "steps of a returned model")
        same(m.stepped, case["steps"], "activations of a returned model")
    require(len({id(m) for m in res}) == len(res), "the same model is returned twice")
    for tag in [e for e in case["exporters"] if e in ("A", "B", "name")]:
        mine = [l for l in log if l[0] == tag]
        if case["name"] or case["how"] != "func":
            same(mine[0][2].name, case["name"] or "World", "name of the simulation")
        same([l[1] for l in mine], ["new", "start"] + ["iteration"] * len(res) + ["end"], "notifications of exporter %s" % tag)
        for l, m in zip(mine[2:-1], res):
            require(l[2] is m, "exporter {}: notified of another model than the one returned", tag)
            same(typed(l[3]), typed(m.given), "exporter %s: parameters of the notified run" % tag)
        seen = {}
        for l in mine[2:-1]:
            seen.setdefault(typed(l[3]), set()).add(l[4])
        for c, ids in seen.items():
            require(len(ids) == 1, "runs with equal parameters {} have identifiers {}", c, ids)
        allids = [next(iter(v)) for v in seen.values()]
        for i, a in enumerate(seen):
            for j, b in enumerate(seen):
                if i < j and json.loads(a) != json.loads(b):
                    require(allids[i] != allids[j], "runs with parameters {} and {} share identifier {}", a, b, allids[i])
        # in a deterministic order and with stable identifiers, also when the parameters are written in another order
        del LOG[:]
        again = go()
        same([typed(m.given) for m in again], [typed(m.given) for m in res], "order of the runs, second time")
        same([l[4] for l in LOG if l[0] == tag and l[1] == "iteration"], [l[4] for l in mine[2:-1]], "identifiers, second time")
        if case["reverse"]:
            del LOG[:]
            go(reverse=True)
            back = {}
            for l in [l for l in LOG if l[0] == tag and l[1] == "iteration"]:
                back.setdefault(typed(l[3]), set()).add(l[4])
            same(back, seen, "identifiers when the parameters are given in another order")
        if want:
            # a parameter more, or less, makes other parameters
            p = dict(want[0])
            other = dict(p, extra=None)
            if p and case["steps"]:
                other = dict(p)
                del other[sorted(p)[0]]
            del LOG[:]
            with silent():
                S.Simulation(model=World, parameters=copy.deepcopy(other), max_steps=0, exporters=[RecA], name="other").run()
            got, = [l[4] for l in LOG if l[1] == "iteration"]
            require(got not in seen[typed(p)], "runs with parameters {} and {} share identifier {}", p, other, got)
    starts = [i for i, l in enumerate(log) if l[1] == "start"]
    firsts = [i for i, l in enumerate(log) if l[1] == "iteration"]
    ends = [i for i, l in enumerate(log) if l[1] == "end"]
    if firsts and starts:
        require(max(starts) < min(firsts) and max(firsts) < min(ends), "notifications out of order")
    obs.tag("combinations", len(want))
    obs.tag("overlap", int(bool(set(params) & set(matrix))))
    obs.tag("empty_list", int(any(not v for v in matrix.values())))
    obs.hit(len(want) >= 2 and len(res) > 2)


TARGETS = [Target("expansion", cases, check, quick=2400, rule="at least two combinations and three runs")]
