"""C12: iterations and configurations never contaminate each other."""
import copy, threading
import networkx as nx
from vf.lib import *
from vf.core import Target

TECHNIQUE = "generated simulations whose models modify everything they are given; each start compared with the original definition and each result with a run alone"
ASSUMPTIONS = ["parameters are copyable data; class attributes of the user's own model class are the user's business"]

leaf = st.one_of(st.integers(-3, 3), st.sampled_from(["a", "b", "", None, True, 1.5]))
data = st.recursive(leaf, lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(st.sampled_from(["p", "q", "r"]), s, max_size=3)), max_leaves=6)
mutable = st.one_of(st.lists(leaf, max_size=3), st.dictionaries(st.sampled_from(["p", "q"]), data, max_size=2), data)
graph = fixed(n=weighted((1, 3), (2, 3), (3, 3), (4, 3), (14, 1)), edges=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list), max_size=4), form=st.sampled_from(["graph", "graph", "dict"]))
mutations = st.lists(st.sampled_from(["params", "graph", "reporters", "agents", "deep", "defaults", "tables"]), min_size=1, max_size=5)


def cases():
    return fixed(wrap=weighted((False, 6), ("tuple", 2), ("policy", 1)), params=st.dictionaries(st.sampled_from(["alpha", "beta", "gamma"]), mutable, max_size=3),
                 matrix=st.dictionaries(st.sampled_from(["gamma", "delta"]), st.lists(mutable, min_size=1, max_size=2), max_size=2),
                 graph=st.one_of(st.none(), graph, graph), graph_in_matrix=st.booleans(), rep_in_params=st.booleans(), tables=st.booleans(),
                 iterations=weighted((1, 10), (2, 10), (3, 10), (11, 1)), reruns=st.integers(0, 2), steps=st.integers(0, 2), mut=mutations, shared=st.booleans(), odd=weighted((False, 3), (True, 1)), kwrun=st.booleans(),
                 others=st.lists(fixed(kind=st.sampled_from(["simulation", "direct", "subclass"]), when=st.sampled_from(["before", "between"]), mut=mutations, rep=st.booleans(), tables=st.booleans()), max_size=2))


class Policy:
    def __init__(self, held):
        self.held = held

    def __call__(self):
        return len(self.held)

    def __eq__(self, other):
        return type(other) is Policy and self.held == other.held

    def __repr__(self):
        return "Policy(%r)" % (self.held,)


def spoil(x, deep=True):
    if isinstance(x, Policy):
        spoil(x.held, deep)
    elif isinstance(x, list):
        if deep:
            for y in x:
                spoil(y)
        x.append("spoiled")
    elif isinstance(x, dict):
        if deep:
            for y in list(x.values()):
                spoil(y)
        x["spoiled"] = 1
    elif isinstance(x, tuple) and deep:
        for y in x:
            spoil(y)


LOCK = threading.Lock()
KEYS = ["alpha", "beta", "gamma", "delta"]


class Member(A.NetworkAgent):
    bag = []
    book = {"k": [1]}
    n = 0

    def init(self):
        self.started = (copy.deepcopy(self.bag), copy.deepcopy(self.book), self.n)

    def step(self):
        self.n += 1
        self.bag.append(self.n)
        self.book["k"].append(self.n)
        self.book["new"] = self.n


class World(E.Environment):
    def init(self):
        self.start = {k: copy.deepcopy(self.__dict__[k]) for k in KEYS if k in self.__dict__}
        self.start["graph"] = snap(self.G)
        self.start["model_reporters"] = sorted(self.datacollector.model_reporters)
        self.start["agent_reporters"] = sorted(self.datacollector.agent_reporters)
        self.start["tables"] = copy.deepcopy(self.datacollector.tables)
        mut = self.mut
        if len(self.G):
            self.populate_network(Member)
        else:
            self.add_agents(Member, k=2)
        self.start["agents"] = [a.started for a in self.get_agents()]
        if "params" in mut or "deep" in mut:
            for k in KEYS:
                if k in self.__dict__:
                    spoil(self.__dict__[k], "deep" in mut)
        if "graph" in mut:
            for n in self.G.nodes:
                self.G.nodes[n]["mark"] = "spoiled"
            self.G.add_edge("new", "node")
            self.G.graph["spoiled"] = 1
        if "reporters" in mut:
            self.add_model_reporter("spoiled", lambda m: 1)
            self.add_agent_reporter("spoiled", lambda a: 1)
        if "tables" in mut:
            for t in self.datacollector.tables:
                self.datacollector.add_table_row(t, {"c": self.random.random()})
        if "defaults" in mut:
            for a in self.get_agents():
                a.bag.append("init")
                a.book["k"].append("init")

    def step(self):
        super().step()
        if "params" in self.mut:
            for k in KEYS:
                if k in self.__dict__:
                    spoil(self.__dict__[k])


def snap(G):
    return {"nodes": [[n, {k: repr(v) for k, v in d.items()}] for n, d in G.nodes(data=True)], "edges": sorted(map(repr, G.edges(data=True))), "graph": dict(G.graph),
            "directed": G.is_directed()}


def topology(g):
    G = nx.Graph(name="net")
    G.add_nodes_from((i, {"v": i}) for i in range(g["n"]))
    G.add_edges_from((u % g["n"], v % g["n"]) for u, v in g["edges"])
    return G if g["form"] == "graph" else nx.node_link_data(G)


def build(case):
    kw = dict(parameters=copy.deepcopy(case["params"]), matrix=copy.deepcopy(case["matrix"]))
    kw["parameters"]["mut"] = list(case["mut"])
    if case["odd"]:
        kw["parameters"]["lock"] = LOCK          # something that cannot be copied
    if case["graph"]:
        if case["graph_in_matrix"]:
            kw["matrix"]["topology"] = [topology(case["graph"])]
        else:
            kw["parameters"]["topology"] = topology(case["graph"])
    model_rep, agent_rep = {"total": lambda m: sum(a.n for a in m.get_agents())}, {"size": lambda a: len(a.bag), "n": "n"}
    if case["rep_in_params"]:
        kw["parameters"]["model_reporters"], kw["parameters"]["agent_reporters"] = dict(model_rep), dict(agent_rep)
    kw["model_reporters"], kw["agent_reporters"] = {"steps": lambda m: m.schedule.steps}, {"book": lambda a: len(a.book["k"])}
    if not case["rep_in_params"]:
        kw["model_reporters"].update(model_rep)
        kw["agent_reporters"].update(agent_rep)
    if case["tables"]:
        kw["tables"] = {"tab": ["c"]}
    return kw


def freeze(x):
    if isinstance(x, nx.Graph):
        return snap(x)
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [freeze(v) for v in x]
    if isinstance(x, Policy):
        return ["Policy", freeze(x.held)]
    if callable(x):
        return id(x)
    return (type(x).__name__, x)


def results(m):
    return (m.model_df(steps=True).to_dict("list"), m.agent_df(steps=True).reset_index().to_dict("list"), m.datacollector.tables)


def check(case, obs):
    if case["wrap"] == "policy":
        # objects of the user, which can be called
        case = dict(case, params={k: Policy([v, k]) for k, v in case["params"].items()}, matrix={k: [Policy([v]) for v in vs] for k, vs in case["matrix"].items()})
        obs.tag("callable objects")
    elif case["wrap"]:
        # values that cannot change, with contents that can
        case = dict(case, params={k: (v, [k]) + (1,) * (case["steps"] * 2) for k, v in case["params"].items()}, matrix={k: [(v, {"k": k}) + ("t",) * case["steps"] for v in vs] for k, vs in case["matrix"].items()})
        obs.tag("tuples")
    kw = build(case)
    before = freeze(kw)
    steps = dict(max_steps=case["steps"], seed="s", dump=False, exporters=[], model=World, name="iso")
    if case["graph"]:
        g0 = snap(topology(dict(case["graph"], form="graph")))
    else:
        g0 = snap(nx.Graph())
    if case["graph"] and case["graph"]["form"] == "dict":
        g0 = snap(nx.node_link_graph(topology(case["graph"])))
    lists = list(case["matrix"].items())
    combos = [{}]
    for k, vs in lists:
        combos = [dict(c, **{k: v}) for c in combos for v in vs]
    n = case["iterations"]

    def expect(res, what):
        same(len(res), n * len(combos), what + ": number of models")
        for i, m in enumerate(res):
            c = combos[i // n]
            want = {**case["params"], **c}
            for k in KEYS:
                require((k in m.start) == (k in want), "{}: model {}: parameter {} given {}", what, i, k, k in m.start)
                if k in want:
                    same(freeze(m.start[k]), freeze(want[k]), "%s: model %d started with %s" % (what, i, k))
            same(m.start["graph"], g0, "%s: model %d started with the network" % (what, i))
            same(m.start["model_reporters"], sorted(["total", "steps", "agent_count", "time"]), "%s: model %d started with model reporters" % (what, i))
            same(m.start["agent_reporters"], sorted(["size", "n", "book"]), "%s: model %d started with agent reporters" % (what, i))
            same(m.start["tables"], {"tab": {"c": []}} if case["tables"] else {}, "%s: model %d started with tables" % (what, i))
            for a in m.start["agents"]:
                same(a, ([], {"k": [1]}, 0), "%s: model %d: attributes of a new agent" % (what, i))
        same(freeze(kw), before, what + ": the definition of the simulation")

    def unrelated(when):
        for o in case["others"]:
            if o["when"] != when:
                continue
            obs.tag("unrelated simulations")
            extra = dict(model_reporters={"foreign": lambda m: 1}, agent_reporters={"foreign": lambda a: 2}) if o["rep"] else {}
            if o["tables"]:
                extra["tables"] = {"foreign": ["c"]}
            ps = dict(mut=list(o["mut"]), alpha=["foreign"], beta={"foreign": 1}, gamma=["foreign"], delta=["foreign"])
            if o["kind"] == "direct":
                World(topology=nx.path_graph(2), **ps, **extra).step()
            else:
                cls = World if o["kind"] == "simulation" else type("World", (World,), {"foreign": soil.report(property(lambda self: 3))})
                S.Simulation(**dict(steps, model=cls, seed="foreign"), parameters=dict(ps, topology=nx.path_graph(3)), **extra).run()

    with silent():
        unrelated("before")
        sim = S.Simulation(iterations=n, **steps, **kw)
        twin = S.Simulation(iterations=n, **steps, **kw) if case["shared"] else sim
        res = sim.run()
        expect(res, "first run")
        first = [results(m) for m in res]
        unrelated("between")
        for r in range(case["reruns"]):
            res = (twin if r % 2 == 0 else sim).run(**({"iterations": n} if case["kwrun"] else {}))
            expect(res, "run %d" % (r + 2))
            for i, m in enumerate(res):
                same(results(m), first[i], "run %d: results of model %d" % (r + 2, i))
        # each run alone gives the same results
        for ci, c in enumerate(combos):
            solo = build(case)
            solo["matrix"] = {k: [copy.deepcopy(v)] for k, v in c.items()}
            if case["graph"] and case["graph_in_matrix"]:
                solo["matrix"]["topology"] = [topology(case["graph"])]
            it = S.Simulation(iterations=1, **steps, **solo).run()
            same(results(it[0]), first[ci * n], "results of configuration %d run alone" % ci)
    same(freeze({"parameters": sim.parameters, "matrix": sim.matrix}), {k: before[k] for k in ("parameters", "matrix")}, "fields of the simulation")
    obs.tag("several_iterations", int(n > 1))
    obs.tag("mutable_matrix", int(any(isinstance(v, (list, dict)) for vs in case["matrix"].values() for v in vs)))
    obs.hit((n > 1 or case["reruns"] > 0 or len(combos) > 1) and bool(set(case["mut"])))


# ---- models created without a simulation
def direct_cases():
    return fixed(graph=graph, mut=mutations, tables=st.booleans(), models=st.integers(2, 3), steps=st.integers(0, 2), interleave=st.booleans(), given=st.sampled_from(["both", "model", "agent", "none"]),
                 generator=st.booleans())


def check_direct(case, obs):
    kw = {}
    if case["given"] in ("both", "model"):
        kw["model_reporters"] = {"total": lambda m: sum(a.n for a in m.get_agents())}
    if case["given"] in ("both", "agent"):
        kw["agent_reporters"] = {"size": lambda a: len(a.bag), "n": "n"}
    if case["tables"]:
        kw["tables"] = {"tab": ["c"]}
    if case["generator"]:
        kw["network_generator"] = nx.path_graph
        kw["network_params"] = {"n": 3}
    else:
        # a graph given directly to a model becomes its network; data is only read
        kw["topology"] = topology(dict(case["graph"], form="dict"))
        case = dict(case, mut=[m for m in case["mut"] if m != "graph"])
    mine = lambda kw: freeze({k: kw[k] for k in ("model_reporters", "agent_reporters", "tables") if k in kw})
    before = mine(kw)
    models, starts = [], []

    def drive(m):
        for _ in range(case["steps"]):
            m.step()
    with silent():
        for i in range(case["models"]):
            m = World(mut=list(case["mut"]), seed="direct", **kw)
            same(mine(kw), before, "what was given to model %d" % i)
            models.append(m)
            if not case["interleave"]:
                drive(m)
        for m in models:
            if case["interleave"]:
                drive(m)
    same(mine(kw), before, "what was given to the models")
    for i, m in enumerate(models[1:], 1):
        same(m.start, models[0].start, "what model %d started with" % i)
        a, b = [x.datacollector for x in (models[0], m)]
        same(b.model_vars, a.model_vars, "data of model %d" % i)
        same(b.tables, a.tables, "tables of model %d" % i)
        same(sorted(b.agent_reporters), sorted(a.agent_reporters), "agent reporters of model %d" % i)
        if "tables" not in case["mut"]:
            require(a.tables is not b.tables or not a.tables, "models share their tables")
    obs.hit(bool(set(case["mut"]) & {"reporters", "tables"}))


TARGETS = [Target("direct", direct_cases, check_direct, quick=500, rule="the models modify their reporters or tables"),
           Target("isolation", cases, check, quick=1500, rule="at least two runs share a definition and the model modifies what it was given")]
