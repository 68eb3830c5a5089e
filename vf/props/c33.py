"""C33: what is left to chance is fair, and depends on nothing but the seed.

Statistics are taken over generated populations with seeds that are part of the case, so a case always gives the
same verdict; the bounds lie seven standard deviations away."""
import networkx as nx
from vf.lib import *
from vf.core import Target
from soil import network as N

TECHNIQUE = "statistical oracles over generated populations (pairwise order, ranks and independence of consecutive turns, node placement, probabilities), and metamorphic comparison of runs whose seeds differ"
ASSUMPTIONS = ["bounds of seven standard deviations; agents that coincide asked for the same instant"]

SHUFFLED = ["timed", "shuffled", "pq", "default"]
FIXED = ["ordered", "pq_fixed"]


class Turn(A.BaseAgent):
    def step(self):
        self.model.turns.append((float(self.now), self.tag))
        return self.period


class FsmTurn(A.FSM):
    @A.default_state
    @A.state
    def only(self):
        self.model.turns.append((float(self.now), self.tag))
        return self.delay(self.period)


class GenTurn(A.BaseAgent):
    def step(self):
        while True:
            self.model.turns.append((float(self.now), self.tag))
            yield self.period


class NetTurn(A.NetworkAgent):
    def step(self):
        self.model.turns.append((float(self.now), self.tag))
        return self.period


class MesaTurn(mesa.Agent):
    period = 1
    tag = None

    def step(self):
        self.model.turns.append((float(self.model.schedule.time), self.tag))
        return self.period


KIND = {"plain": Turn, "fsm": FsmTurn, "gen": GenTurn, "net": NetTurn, "mesa": MesaTurn}


class unrelated:
    """The generators of the process are in another state, which is no concern of any model."""
    def __enter__(self):
        import random
        import numpy
        self.was = random.getstate(), numpy.random.get_state()
        random.seed("unrelated")
        numpy.random.seed(8)

    def __exit__(self, *exc):
        import random
        import numpy
        random.setstate(self.was[0])
        numpy.random.set_state(self.was[1])


def sched(name):
    return {} if name == "default" else {"schedule_class": SCHEDULERS()[name]}


def run(case, seed, rounds):
    m = soil.Environment(seed=seed, turns=[], **sched(case["sched"]))
    for i, (kind, period) in enumerate(case["agents"]):
        a = KIND[kind](unique_id=m.next_id(), model=m)
        a.tag, a.period = i, period
        m.schedule.add(a)
    end = rounds * max(p for _, p in case["agents"])
    while m.now < end:
        m.step()
    return [t for t in m.turns if t[0] < end]


def turn_cases(names):
    def f():
        agent = st.tuples(st.sampled_from(["plain", "plain", "plain", "fsm", "gen", "net", "mesa"]), st.sampled_from([1, 1, 1, 2, 0.5])).map(list)
        return fixed(agents=st.lists(agent, min_size=2, max_size=7), sched=st.sampled_from(names), seed=st.integers(0, 10 ** 9), rounds=st.sampled_from([100, 200]))
    return f


def instants(turns):
    out = {}
    for t, i in turns:
        out.setdefault(t, []).append(i)
    return out


def check_turns(case, obs):
    turns = run(case, "t%d" % case["seed"], case["rounds"])
    by = instants(turns)
    n = len(case["agents"])
    for t, who in by.items():
        want = sorted(i for i, (_, p) in enumerate(case["agents"]) if t % p == 0)
        same(sorted(who), want, "agents activated at %r" % t)
    for i in range(n):
        for j in range(i):
            rs = [who.index(i) < who.index(j) for who in by.values() if i in who and j in who]
            k = len(rs)
            if k < 60:
                continue
            sd = math.sqrt(k) / 2
            require(abs(sum(rs) - k / 2) <= 7 * sd, "agent {} acts before agent {} in {} of {} coincidences", i, j, sum(rs), k)
            # consecutive coincidences are independent
            agree = sum(a == b for a, b in zip(rs, rs[1:]))
            sd = math.sqrt(k - 1) / 2
            require(abs(agree - (k - 1) / 2) <= 7 * sd, "the order of agents {} and {} is the same as in the previous turn {} times of {}", i, j, agree, k - 1)
            obs.hit()
    # another seed gives another order
    other = run(case, "u%d" % case["seed"], case["rounds"])
    same(sorted(other), sorted(turns), "turns with another seed")
    if sum(len(w) for w in by.values() if len(w) > 1) > 100:
        require(other != turns, "the order does not depend on the seed")
        obs.tag("compared")
    with unrelated():
        same(run(case, "t%d" % case["seed"], case["rounds"]), turns, "turns with the same seed")
    obs.tag(case["sched"])


def check_fixed(case, obs):
    a = run(case, "t%d" % case["seed"], 20)
    b = run(case, "u%d" % case["seed"], 20)
    same(a, b, "turns with another seed, in a fixed order")
    obs.hit(any(len(w) > 2 for w in instants(a).values()))


# ---- nodes
def place_cases():
    return fixed(n=st.one_of(st.integers(2, 6), st.integers(2, 6), st.integers(10, 60)), how=st.sampled_from(["add_agent", "add_node", "add_agents", "unassigned"]), taken=st.integers(0, 2), seed=st.integers(0, 10 ** 9), agents=st.integers(1, 3), names=st.sampled_from(["int", "str"]), trials=st.just(150))


class Here(A.NetworkAgent):
    def step(self):
        return 1


def check_place(case, obs):
    n = case["n"]
    names = ["n%d" % i for i in range(n)] if case["names"] == "str" else list(range(n))
    taken = names[:min(case["taken"], n - 1)]
    free = [x for x in names if x not in taken]
    k = min(case["agents"], len(free))

    def place(t):
        m = soil.Environment(seed="p%d_%d" % (case["seed"], t), topology=nx.empty_graph(names) if case["names"] == "int" else nx.relabel_nodes(nx.empty_graph(n), dict(enumerate(names))))
        for x in taken:
            m.add_agent(Here, node_id=x)
        if case["how"] == "unassigned":
            got = [N.find_unassigned(m.G, shuffle=True, random=m.random)]
            same(N.find_unassigned(m.G), free[0], "first free node")
        elif case["how"] == "add_agents":
            m.add_agents([Here], k=k)
            got = [a.node_id for a in list(m.schedule.agents)[len(taken):]]
        else:
            got = [getattr(m, case["how"])(Here).node_id for _ in range(k)]
        require(set(got) <= set(free) and len(set(got)) == len(got), "agents were placed on {!r}; the free nodes were {!r}", got, free)
        return got

    spots = [place(t) for t in range(case["trials"])]
    with unrelated():
        for t in range(0, 30, 3):
            same(place(t), spots[t], "places with the same seed")
    p = 1 / len(free)
    sd = math.sqrt(case["trials"] * p * (1 - p))
    for pos in range(len(spots[0])):
        for x in free:
            c = sum(s[pos] == x for s in spots)
            require(abs(c - case["trials"] * p) <= 7 * sd + 1e-9, "agent {} was placed on node {!r} in {} of {} models ({} free nodes)", pos, x, c, case["trials"], len(free))
    obs.tag(case["how"])
    obs.hit(len(free) > 1)


# ---- probabilities
def prob_cases():
    return fixed(p=st.one_of(st.sampled_from([0, 1, 0.0, 1.0, 0.5]), st.integers(1, 99).map(lambda k: k / 100)), how=st.sampled_from(["method", "function", "steps"]), seed=st.integers(0, 10 ** 9), n=st.sampled_from([500, 1000]))


class Die(A.BaseAgent):
    def step(self):
        self.hits.append(self.prob(self.p))
        return 1


class Zero:
    """A generator of extreme values."""
    def __init__(self, v):
        self.v = v

    def random(self):
        return self.v


def check_prob(case, obs):
    p, n = case["p"], case["n"]
    m = soil.Environment(seed="q%d" % case["seed"])
    a = m.add_agent(Die, hits=[], p=p)
    if case["how"] == "steps":
        while len(a.hits) < n:
            m.step()
        hits = a.hits
    elif case["how"] == "method":
        hits = [a.prob(p) for _ in range(n)]
    else:
        hits = [A.prob(p, m.random) for _ in range(n)]
    require(all(type(h) is bool for h in hits), "not a truth value: {!r}", hits[:3])
    if p in (0, 1):
        same(sum(hits), n * int(p), "outcomes of probability %r" % p)
    sd = math.sqrt(n * p * (1 - p))
    require(abs(sum(hits) - n * p) <= 7 * sd + 3, "{} of {} with probability {}", sum(hits), n, p)
    agree = sum(x == y for x, y in zip(hits, hits[1:]))
    q = p * p + (1 - p) ** 2
    require(abs(agree - (n - 1) * q) <= 9 * math.sqrt(n * q * (1 - q)) + 6, "consecutive outcomes agree {} times of {} with probability {}", agree, n - 1, p)
    require(A.prob(0, Zero(0.0)) is False and A.prob(1, Zero(1 - 2 ** -53)) is True, "impossible and certain outcomes")
    # the generator of the model is the only source
    m2 = soil.Environment(seed="q%d" % case["seed"])
    b = m2.add_agent(Die, hits=[], p=p)
    first = [b.prob(p) for _ in range(50)]
    with unrelated():
        same(again(case), first, "outcomes with the same seed")
    obs.hit(0 < p < 1)


def again(case):
    m = soil.Environment(seed="q%d" % case["seed"])
    c = m.add_agent(Die, hits=[], p=case["p"])
    return [c.prob(case["p"]) for _ in range(50)]


TARGETS = [Target("turns", turn_cases(SHUFFLED), check_turns, quick=120, rule="some pair of agents coincided sixty times or more"),
           Target("fixed", turn_cases(FIXED), check_fixed, quick=160, rule="at least three agents coincided"),
           Target("places", place_cases, check_place, quick=120, rule="there was more than one free node"),
           Target("probabilities", prob_cases, check_prob, quick=240, rule="the outcome is uncertain")]
