"""C30: the bundled agent models follow their published rules."""
import math, random
import networkx as nx
from vf.lib import *
from vf.core import Target

TECHNIQUE = "generated networks, parameters and initial states run with a monitor that, at each activation, computes the allowed outcomes from the neighbours' states; frequency tests (6 sigma) for intermediate probabilities"
ASSUMPTIONS = ["SISa parameters are used without variance, so that every agent has the values of the model"]

edges = st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)).map(list), max_size=10)
p01 = st.sampled_from([0, 0, 1, 1, 0.5, 0.25, 0.125, 0.0, 2, -1])
weights = ["neutral_discontent_spon_prob", "neutral_discontent_infected_prob", "neutral_content_spon_prob", "neutral_content_infected_prob", "discontent_neutral", "discontent_content", "content_discontent", "content_neutral"]


extremes = st.sampled_from([None, None, "low", "high", "mixed"])   # luck


class Dice(random.Random):
    """A generator with extreme luck: whatever is certain still happens, and whatever is impossible does not."""
    luck = "mixed"

    def random(self):
        # tiny differences, because schedulers use these numbers to order agents
        low = self.luck == "low" or self.luck == "mixed" and super().random() < 0.5
        tiny = super().random() * 2 ** -24
        return tiny if low else 1 - 2 ** -53 - tiny

    def getrandbits(self, k):
        return super().getrandbits(k)


def loaded(m, luck):
    if luck is not None:
        m.random = Dice(luck)
        m.random.luck = luck


def graph(case):
    g = (nx.DiGraph if case["directed"] else nx.Graph)()
    g.add_nodes_from(range(case["n"]))
    if case.get("star"):
        g.add_edges_from((0, k) for k in range(1, case["n"]))
        g.add_edges_from((k, 0) for k in range(1, case["n"]))
    g.add_edges_from((a % case["n"], b % case["n"]) for a, b in case["edges"] if a % case["n"] != b % case["n"])
    return g


def outcomes(rules, stay):
    """rules: [(probability, new state)], tried in order."""
    out = set()
    for p, s in rules:
        if p >= 1:
            out.add(s)
            return out
        if p > 0:
            out.add(s)
    out.add(stay)
    return out


def states_around(agent):
    """States of the neighbours, straight from the graph."""
    g = agent.model.G
    res = []
    for n in g.neighbors(agent.node_id):
        a = g.nodes[n].get("agent")
        if a is not None:
            res.append(a)
    return res


def monitored(cls, allowed, log):
    class Watched(cls):
        def step(self):
            before = self.state_id
            around = [(a.state_id, getattr(a, "time_awareness", None)) for a in states_around(self)]
            others = {a.unique_id: a.state_id for a in self.model.schedule.agents if a is not self}
            want = allowed(self, before, around)
            # cls.step is not called directly: whatever the base class does with generators is kept
            r = super().step()
            after = self.state_id
            log.append((float(self.now), self.unique_id, before, after))
            require(after in want, "at {} agent {} with neighbours {} went from {} to {}; the model allows {}", self.now, self.unique_id, around, before, after, sorted(want))
            for a in self.model.schedule.agents:
                if a is not self:
                    same(a.state_id, others[a.unique_id], "state of agent %d, changed by agent %d" % (a.unique_id, self.unique_id))
            return r

    Watched.__name__ = cls.__name__
    return Watched


# ---- diffusion
def diffusion_cases():
    return fixed(model=st.sampled_from(["Bass", "Cascade"]), n=st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 10)), star=weighted((False, 2), (True, 1)), edges=edges, directed=weighted((False, 3), (True, 1)), innovation=p01, imitation=p01, seeds=st.lists(st.integers(0, 5), max_size=2, unique=True),
                 steps=st.integers(1, 6), sched=sched_names, seed=st.integers(0, 3), late=st.booleans(), luck=extremes)


def check_diffusion(case, obs):
    g = graph(case)
    log = []
    inn, imi = case["innovation"], case["imitation"]

    if case["model"] == "Bass":
        cls, start = A.BassModel, "innovation"

        def allowed(agent, before, around):
            if before == "aware":
                return {"aware"}
            k = sum(1 for s, _ in around if s == "aware")
            return outcomes([(inn, "aware"), (imi * k, "aware")], "innovation")
    else:
        cls, start = A.IndependentCascadeModel, "outside"

        def allowed(agent, before, around):
            if before == "aware":
                return {"aware"}
            k = sum(1 for s, t in around if s == "aware" and t == agent.now - 1)
            return outcomes([(inn, "aware"), (imi * k, "aware")], "outside")

    W = monitored(cls, allowed, log)

    class World(E.Environment):
        innovation_prob = inn
        imitation_prob = imi

        def init(self):
            for n in list(self.G.nodes):
                kw = dict(innovation_prob=inn, imitation_prob=imi) if case["model"] == "Bass" else {}
                if n in case["seeds"]:
                    kw.update(state_id="aware", sentimentCorrelation=1)
                self.add_agent(W, node_id=n, **kw)

    with silent():
        m = World(topology=g, seed=str(case["seed"]), schedule_class=SCHEDULERS()[case["sched"]])
        loaded(m, case.get("luck"))
        agents = {a.node_id: a for a in m.schedule.agents}
        when = {n: 0.0 for n in agents if n in case["seeds"]}
        for k in range(case["steps"]):
            if not m.running:
                break
            before = {n: a.state_id for n, a in agents.items()}
            t = float(m.now)
            m.step()
            for n, a in agents.items():
                require(not (before[n] == "aware" and a.state_id != "aware"), "agent {} is no longer aware", n)
                same(a.sentimentCorrelation, 1 if a.state_id == "aware" else 0, "sentiment of agent %r, %s" % (n, a.state_id))
                if before[n] != "aware" and a.state_id == "aware":
                    when[n] = t
                if case["model"] == "Cascade" and n in when and n not in case["seeds"]:
                    same(float(a.time_awareness), when[n], "instant at which agent %r became aware" % n)
            same(sorted(a.unique_id for a in m.schedule.agents), sorted(a.unique_id for a in agents.values()), "agents in the model")
        # everyone who is not aware keeps being activated at each instant
        for n, a in agents.items():
            mine = [l for l in log if l[1] == a.unique_id]
            same([l[0] for l in mine], [float(i) for i in range(len(mine))], "activations of agent %r" % n)
            end = when.get(n)
            if end is None:
                require(a.state_id == start, "agent {} is {}", n, a.state_id)
    obs.tag(case["model"])
    obs.tag("spread", int(any(w > 0 for w in when.values())))
    obs.hit(len(log) > 2 and g.number_of_edges() > 0 and (imi > 0 or inn > 0))


# ---- epidemic
def sisa_cases():
    return fixed(n=st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 10)), star=weighted((False, 2), (True, 1)), edges=edges, directed=weighted((False, 3), (True, 1)), params=st.fixed_dictionaries({w: p01 for w in weights}), init=st.lists(st.sampled_from(["neutral", "discontent", "content"]), min_size=10, max_size=10),
                 steps=st.integers(1, 6), sched=sched_names, seed=st.integers(0, 3), luck=extremes)


def check_sisa(case, obs):
    g = graph(case)
    p = case["params"]
    log = []

    def allowed(agent, before, around):
        d = sum(1 for s, _ in around if s == "discontent")
        c = sum(1 for s, _ in around if s == "content")
        if before == "neutral":
            return outcomes([(p["neutral_discontent_spon_prob"], "discontent"), (p["neutral_content_spon_prob"], "content"), (d * p["neutral_discontent_infected_prob"], "discontent"),
                             (c * p["neutral_content_infected_prob"], "content")], "neutral")
        if before == "discontent":
            return outcomes([(p["discontent_neutral"], "neutral"), (c * p["discontent_content"], "content")], "discontent")
        return outcomes([(p["content_neutral"], "neutral"), (d * p["content_discontent"], "discontent")], "content")

    W = monitored(A.SISaModel, allowed, log)

    class World(E.Environment):
        def init(self):
            for i, n in enumerate(list(self.G.nodes)):
                self.add_agent(W, node_id=n, state_id=case["init"][i])

    with silent():
        m = World(topology=g, seed=str(case["seed"]), schedule_class=SCHEDULERS()[case["sched"]], standard_variance=0, variance_d_c=0, variance_c_d=0, **p)
        loaded(m, case.get("luck"))
        same([a.state_id for a in m.schedule.agents], case["init"][:case["n"]], "initial states")
        for k in range(case["steps"]):
            m.step()
    same(sorted((l[0], l[1]) for l in log), sorted((float(k), a.unique_id) for k in range(case["steps"]) for a in m.schedule.agents), "activations")
    obs.tag("changes", int(any(l[2] != l[3] for l in log)))
    obs.hit(g.number_of_edges() > 0 and any(l[2] != l[3] for l in log))


# ---- how often
def freq_cases():
    return fixed(kind=st.sampled_from(["bass_spon", "bass_imit", "cascade_spon", "cascade_imit", "sisa_nd", "sisa_nc", "sisa_nd_inf", "sisa_nc_inf", "sisa_dn", "sisa_dc", "sisa_cd", "sisa_cn"]),
                 p=st.sampled_from([0.1, 0.25, 0.5, 0.75, 0.9]), k=st.sampled_from([1, 1, 2, 2, 3, 8]), seed=st.integers(0, 50))


def check_freq(case, obs):
    kind, p, k = case["kind"], case["p"], case["k"]
    n = 300
    social = kind in ("bass_imit", "cascade_imit", "sisa_nd_inf", "sisa_nc_inf", "sisa_dc", "sisa_cd")
    rate = p / k if social else p     # with k neighbours, the probability is p again
    g = nx.Graph()
    g.add_nodes_from(range(n))
    others = ["o%d" % i for i in range(k)]
    if social:
        g.add_edges_from((i, o) for i in range(n) for o in others)
    conf = dict.fromkeys(weights, 0)
    start, end, around = {"bass_spon": ("innovation", "aware", None), "bass_imit": ("innovation", "aware", "aware"), "cascade_spon": ("outside", "aware", None), "cascade_imit": ("outside", "aware", "aware"),
                          "sisa_nd": ("neutral", "discontent", None), "sisa_nc": ("neutral", "content", None), "sisa_nd_inf": ("neutral", "discontent", "discontent"), "sisa_nc_inf": ("neutral", "content", "content"),
                          "sisa_dn": ("discontent", "neutral", None), "sisa_dc": ("discontent", "content", "content"), "sisa_cd": ("content", "discontent", "discontent"), "sisa_cn": ("content", "neutral", None)}[kind]
    extra = {}
    if kind.startswith("sisa"):
        cls = A.SISaModel
        conf[{"sisa_nd": "neutral_discontent_spon_prob", "sisa_nc": "neutral_content_spon_prob", "sisa_nd_inf": "neutral_discontent_infected_prob", "sisa_nc_inf": "neutral_content_infected_prob", "sisa_dn": "discontent_neutral",
              "sisa_dc": "discontent_content", "sisa_cd": "content_discontent", "sisa_cn": "content_neutral"}[kind]] = rate
        conf.update(standard_variance=0, variance_d_c=0, variance_c_d=0)
    else:
        conf = dict(innovation_prob=0 if social else rate, imitation_prob=rate if social else 0)
        cls = A.BassModel if kind.startswith("bass") else A.IndependentCascadeModel
        extra = dict(conf) if kind.startswith("bass") else {}

    class World(E.Environment):
        def init(self):
            for node in list(self.G.nodes):
                s = around if node in others else start
                more = dict(extra)
                if node in others and kind == "cascade_imit":
                    more["time_awareness"] = -1
                self.add_agent(cls, node_id=node, state_id=s, **more)

    with silent():
        m = World(topology=g, seed=str(case["seed"]), schedule_class=T.OrderedTimedActivation, **conf)
        agents = {a.node_id: a for a in m.schedule.agents}
        m.step()
    got = [a.state_id for node, a in agents.items() if node not in others]
    require(set(got) <= {start, end}, "states {}", sorted(set(got)))
    hits = sum(s == end for s in got)
    sigma = math.sqrt(n * p * (1 - p))
    require(abs(hits - n * p) <= 6 * sigma + 1, "{}: {} of {} agents changed with probability {} ({} neighbours)", kind, hits, n, p, k)
    obs.tag(kind)
    obs.hit()


# ---- counters
def counter_cases():
    ag = fixed(kind=st.sampled_from(["CounterModel", "AggregatedCounter", "Ticker"]), times=st.sampled_from([None, None, 3]))
    return fixed(agents=st.lists(ag, min_size=1, max_size=6), edges=edges, directed=st.booleans(), steps=st.integers(1, 6), remove=st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)).map(list), max_size=2), sched=sched_names,
                 interval=st.sampled_from([None, 2, 0.5]), add=st.lists(st.tuples(st.integers(0, 5), st.sampled_from(["CounterModel", "Ticker"])).map(list), max_size=2))


def check_counters(case, obs):
    g = graph(dict(case, n=len(case["agents"])))

    class World(E.Environment):
        def init(self):
            for n, s in zip(list(self.G.nodes), case["agents"]):
                kw = {} if s["times"] is None else {"times": s["times"]}
                if s["kind"] == "Ticker":
                    self.add_agent(A.Ticker, **kw)
                else:
                    self.add_agent(getattr(A, s["kind"]), node_id=n, **kw)

    if case["interval"] is not None:
        World.default_interval = case["interval"]
    with silent():
        m = World(topology=g, seed="c", schedule_class=SCHEDULERS()[case["sched"]])
        spec = {}
        want = {}
        for a, s in zip(m.schedule.agents, case["agents"]):
            want[a.unique_id] = {"times": s["times"] or 0, "neighbors": 0, "total": 0}
        for k in range(case["steps"]):
            for at, i in case["remove"]:
                live = list(m.schedule.agents)
                if at == k and len(live) > 1:
                    m.schedule.remove(live[i % len(live)])
                    a = live[i % len(live)]
                    want.pop(a.unique_id, None)
                    if isinstance(a, A.NetworkAgent):
                        m.G.nodes[a.node_id].pop("agent", None)
            for at, kind in case["add"]:
                if at == k:
                    a = m.add_agent(getattr(A, kind))
                    want[a.unique_id] = {"times": 0, "neighbors": 0, "total": 0}
            live = list(m.schedule.agents)
            ids = {a.unique_id for a in live}
            for a in live:
                w = want[a.unique_id]
                w["times"] += 1
                if isinstance(a, A.NetworkAgent):
                    near = len({b.unique_id for b in states_around(a)} & ids)
                    if type(a) is A.CounterModel:
                        w["neighbors"], w["total"] = near, len(live)
                    else:
                        w["neighbors"] += near
                        w["total"] += len(live)
            m.step()
            for a in m.schedule.agents:
                for f in ("times", "neighbors", "total") if isinstance(a, A.NetworkAgent) else ("times",):
                    same(getattr(a, f), want[a.unique_id][f], "%s of %s %d after %d steps" % (f, type(a).__name__, a.unique_id, k + 1))
                    same(a[f], want[a.unique_id][f], "item %s" % f)
    obs.hit(case["steps"] > 1 and len(want) > 1)


TARGETS = [Target("diffusion", diffusion_cases, check_diffusion, quick=1200, rule="there are links, some probability is positive and several activations"),
           Target("sisa", sisa_cases, check_sisa, quick=1000, rule="there are links and some agent changes its state"),
           Target("frequency", freq_cases, check_freq, quick=80, rule="always: 300 agents with the same chance"),
           Target("counters", counter_cases, check_counters, quick=500, rule="several agents and steps")]
