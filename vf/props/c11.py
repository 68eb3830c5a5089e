"""C11: simulations are reproducible from their seed.

A generated random model is run several times in different circumstances (again in the same process after
unrelated random activity, with another number of iterations, in two other processes with other hash seeds);
all the trajectories, data frames and final random states must coincide."""
import atexit, json, os, random, subprocess
import networkx as nx
import numpy as np
from vf.lib import *
from vf.core import Target

TECHNIQUE = "metamorphic / differential: generated random models re-run in other circumstances and processes, trajectories compared"
ASSUMPTIONS = ["models take all their randomness from the agents' and the model's generators"]

netspec = st.one_of(
    st.none(),
    st.tuples(st.just("erdos_renyi_graph"), st.integers(2, 9), st.sampled_from([0.2, 0.5])).map(lambda t: [t[0], {"n": t[1], "p": t[2]}]),
    st.tuples(st.just("barabasi_albert_graph"), st.integers(4, 9)).map(lambda t: [t[0], {"n": t[1], "m": 2}]),
    st.tuples(st.just("watts_strogatz_graph"), st.integers(5, 9)).map(lambda t: [t[0], {"n": t[1], "k": 3, "p": 0.5}]),
    st.just(["complete_graph", {"n": 5}]), st.just(["balanced_tree", {"r": 2, "h": 2}]),
    st.lists(st.sampled_from("abcdefgh"), min_size=3, max_size=8, unique=True).map(lambda l: ["names", l]))
KINDS = ["Drawer", "Walker", "Flip", "Chat", "SISa", "Bass", "Cascade"]


def cases():
    return fixed(net=netspec, kinds=st.lists(st.sampled_from(KINDS), min_size=1, max_size=4), weights=st.booleans(), k=st.integers(1, 5),
                 populate=st.booleans(), sched=sched_names, seed=st.one_of(st.integers(0, 50), st.sampled_from(["default", "x", ""])), iterations=st.integers(1, 3),
                 other=weighted((1, 5), (2, 5), (3, 5), (4, 5), (11, 2)), noise=st.integers(0, 5), max_time=st.sampled_from([2, 5, 8]), matrix=st.booleans(), far=weighted((False, 4), (True, 1)))


class Tracer:
    def note(self, *what):
        self.model.trace.append([float(self.model.now), self.unique_id] + list(what))


class Drawer(Tracer, A.BaseAgent):
    def step(self):
        r = self.random.random()
        self.note("draw", r, self.model.random.random(), self.prob(0.5))
        if r < 0.15 and len(self.model.get_agents()) < 14:
            self.note("born", self.model.add_agent(Drawer).unique_id)
        elif r > 0.93:
            self.note("die")
            return self.die()
        return self.random.choice([1, 0.5, 2, None])


class Walker(Tracer, A.NetworkAgent):
    def step(self):
        near = self.get_neighbors()
        self.note("near", [a.unique_id for a in near])
        r = self.random.random()
        if near and r < 0.3:
            self.add_edge(self.random.choice(near))
        elif r > 0.9 and len(self.model.G) < 16:
            self.note("node", str(self.model.add_node(Walker).node_id))
        elif r > 0.85 and len(self.model.G) < 16:
            self.note("added", str(self.model.add_agent(Walker).node_id))
        elif 0.3 < r < 0.34:
            return self.die()
        self.note("at", str(self.node_id), r)


class Flip(Tracer, A.FSM):
    @A.default_state
    @A.state
    def a(self):
        self.note("a")
        if self.prob(0.4):
            return self.b

    @A.state
    def b(self):
        while self.prob(0.6):
            self.note("b")
            yield self.random.randint(1, 3)
        return self.a


class Chat(Tracer, A.Agent):
    def on_receive(self, msg, sender=None):
        self.note("got", msg)

    @A.default_state
    @A.state
    async def talk(self):
        self.process_messages()
        self.model.broadcast(self.random.random(), sender=self)
        await self.delay(self.random.choice([1, 2]))
        self.process_messages()


class Bass(A.BassModel):
    innovation_prob = imitation_prob = 0.2


KIND = {"Drawer": Drawer, "Walker": Walker, "Flip": Flip, "Chat": Chat, "SISa": A.SISaModel, "Bass": Bass, "Cascade": A.IndependentCascadeModel}


class Model(E.Environment):
    neutral_discontent_spon_prob = neutral_content_spon_prob = neutral_discontent_infected_prob = neutral_content_infected_prob = 0.2
    discontent_neutral = discontent_content = variance_d_c = content_discontent = variance_c_d = content_neutral = standard_variance = 0.1
    innovation_prob = 0.2
    imitation_prob = 0.2

    def init(self):
        self.trace = []
        spec = self.spec
        classes = [KIND[k] for k in spec["kinds"]]
        weights = list(range(1, len(classes) + 1)) if spec["weights"] else None
        if spec["populate"] and len(self.G):
            self.populate_network(classes, weights)
        else:
            self.add_agents(classes, k=spec["k"], weights=weights)
        for a in self.get_agents():
            self.trace.append([0, a.unique_id, type(a).__name__, str(getattr(a, "node_id", None))])


def simulate(spec, iterations, name="one"):
    params = {"spec": spec, "schedule_class": SCHEDULERS()[spec["sched"]]}
    if spec["net"] is not None:
        if spec["net"][0] == "names":
            g = nx.Graph()
            g.add_nodes_from(spec["net"][1])
            for u in spec["net"][1]:
                for v in spec["net"][1]:
                    if u < v and (ord(u) * 7 + ord(v)) % 3:
                        g.add_edge(u, v)
            params["topology"] = g
        else:
            params["network_generator"], params["network_params"] = spec["net"]
    with silent():
        return S.Simulation(name=name, model=Model, parameters=params, matrix={"extra": [1, 2]} if spec["matrix"] else {}, seed=spec["seed"],
                            iterations=iterations, max_time=spec["max_time"], max_steps=60, dump=False, exporters=[],
                            agent_reporters={"sid": lambda a: getattr(a, "state_id", None), "node": lambda a: str(getattr(a, "node_id", None))},
                            model_reporters={"links": lambda m: m.G.number_of_edges()}).run()


def fingerprint(m):
    adf = m.agent_df(steps=True)
    return {"trace": m.trace, "graph": [str(n) for n in m.G.nodes], "links": [[str(u), str(v)] for u, v in m.G.edges],
            "model": json.loads(m.model_df(steps=True).to_json()), "agents": [[list(map(int, i)), [str(x) for x in r]] for i, r in zip(adf.index, adf.values)],
            "draw": m.random.random(), "now": float(m.now)}


def fingerprints(spec, iterations, name="one"):
    return json.loads(json.dumps([fingerprint(m) for m in simulate(spec, iterations, name)]))


def differs(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], list):
                for i, (x, y) in enumerate(zip(a[k], b[k])):
                    if x != y:
                        return "%s[%d]: %r / %r" % (k, i, x, y)
            return "%s: %s / %s" % (k, str(a[k])[:200], str(b[k])[:200])
    return None


class Worker:
    """Another process, with another hash seed, that runs the same specifications."""

    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        self.p = subprocess.Popen([sys.executable, "-P", "-c", "import sys; sys.path.insert(0, %r); import vf.runner; from vf.props import c11; c11.serve()" % here],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, cwd="/")

    def ask(self, req):
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the other process ended")
        r = json.loads(line)
        if "error" in r:
            raise Violation("in another process: " + r["error"])
        return r["ok"]

    def close(self):
        self.p.stdin.close()
        self.p.wait()
        self.p.stdout.close()


def serve():
    out = os.dup(1)
    os.dup2(2, 1)
    with os.fdopen(out, "w") as w:
        for line in sys.stdin:
            req = json.loads(line)
            try:
                r = {"ok": fingerprints(req["spec"], req["iterations"], "elsewhere")}
            except Exception as ex:
                r = {"error": repr(ex)}
            w.write(json.dumps(r) + "\n")
            w.flush()


_workers = {}


def worker(hashseed):
    key = (os.getpid(), hashseed)
    if key not in _workers:
        _workers[key] = Worker(hashseed)
    return _workers[key]


def noise(n):
    random.seed(n)
    np.random.seed(n)
    for _ in range(n):
        random.random()
    if n % 2:
        with silent():
            E.Environment(seed="noise%d" % n, network_generator="erdos_renyi_graph", network_params={"n": 5, "p": 0.5}, agent_class=Walker)


def compare(want, got, how):
    for i, (a, b) in enumerate(zip(want, got)):
        d = differs(a, b)
        if d:
            raise Violation("run %d differs %s: %s" % (i, how, d))


def check(case, obs):
    n, m = case["iterations"], case["other"]
    noise(case["noise"])
    first = fingerprints(case, n)
    groups = 2 if case["matrix"] else 1
    same(len(first), n * groups, "number of runs")
    noise(case["noise"] + 3)
    again = fingerprints(case, m, "another name")
    for g in range(groups):
        compare(first[g * n:(g + 1) * n], again[g * m:(g + 1) * m], "when run again with %d iterations" % m)
    if case["far"]:
        obs.tag("other_process")
        for hs in (1, 4242):
            compare(first, worker(hs).ask({"spec": case, "iterations": n}), "in another process (hash seed %d)" % hs)
    draws = [f["draw"] for f in first[:n]]
    require(len(set(draws)) == n, "iterations share their random stream: {}", draws)
    obs.tag("iterations_differ", int(n > 1))
    other = dict(case, seed="%s'" % case["seed"], matrix=False)
    o = fingerprints(other, 1)
    require(o[0]["draw"] != first[0]["draw"], "two seeds share their random stream")
    obs.hit(len(first[0]["trace"]) >= 6)


def alone(case, obs):
    """Models built directly, without a simulation."""
    def one():
        with silent():
            params = {"spec": case, "schedule_class": SCHEDULERS()[case["sched"]]}
            if case["net"] is not None and case["net"][0] != "names":
                params["network_generator"], params["network_params"] = case["net"]
            m = Model(seed=case["seed"], agent_reporters={"cls": lambda a: type(a).__name__}, **params)
            while m.running and m.schedule.time < case["max_time"] and m.schedule.steps < 60:
                m.step()
            return json.loads(json.dumps(fingerprint(m)))
    noise(case["noise"])
    a = one()
    noise(case["noise"] + 1)
    compare([a], [one()], "when built again directly")
    obs.hit(len(a["trace"]) >= 6)


# ---- streams
BASES = ["a", "Seed", "experiment 1", "7", "x" * 300, "ñ", "0"]


def variants(b):
    return [b, b + " ", " " + b, b.upper(), b.lower(), b + "0", "0" + b, b[::-1] + "z", b + "_iteration_0", b + b, b + "\n", b + ".0", b[:-1] + chr(ord(b[-1]) + 1), "-" + b]


def stream_cases():
    return fixed(bases=st.lists(st.sampled_from(BASES), min_size=1, max_size=2, unique=True), pick=st.lists(st.integers(0, 13), min_size=2, max_size=6, unique=True), iterations=st.sampled_from([1, 3, 9, 14, 30]), numbers=st.booleans(), kind=st.sampled_from(["Drawer", "Flip"]))


class Draws(E.Environment):
    def init(self):
        self.first = tuple(self.random.random() for _ in range(3))
        self.add_agent(A.Ticker)
        self.second = self.agent().random.random()


def streams(case, obs):
    """All the iterations of simulations with similar seeds draw different numbers, also when models are created directly."""
    seeds = list(dict.fromkeys(variants(b)[i] for b in case["bases"] for i in case["pick"]))
    seen, direct = {}, {}
    for s in seeds:
        with silent():
            ms = S.Simulation(model=Draws, seed=s, iterations=case["iterations"], max_steps=0, dump=False, exporters=[]).run()
            d = Draws(seed=s)
        same(len(ms), case["iterations"], "runs")
        for i, m in enumerate(ms):
            k = m.first + (m.second,)
            require(k not in seen, "iteration {} of seed {!r} draws the same numbers as iteration {} of seed {!r}", i, s, *(seen.get(k) or (0, 0)))
            seen[k] = (i, s)
        require(d.first not in direct, "models with seeds {!r} and {!r} draw the same numbers", s, direct.get(d.first))
        direct[d.first] = s
    obs.hit(len(seeds) > 2)


TARGETS = [Target("streams", stream_cases, streams, quick=120, rule="at least three different seeds"),
           Target("rerun", cases, check, quick=1200, rule="the first run has a trajectory of at least six events"),
           Target("direct", cases, alone, quick=800, rule="the run has a trajectory of at least six events")]
