"""C03: a dead or removed agent never acts again, and nobody else notices."""
from vf.world import *
from vf.core import Target

TECHNIQUE = "stateful histories of deaths over scripted populations, online monitor of activations, searches and the network"
ASSUMPTIONS = ["an agent that was removed is not added again", "waits are positive binary fractions"]


@st.composite
def cases(draw):
    n = draw(st.integers(2, 6))
    op = st.one_of(
        st.tuples(st.just("kill"), st.integers(0, n - 1), st.sampled_from(["die", "die", "remove", "stay"])).map(list),
        st.tuples(st.just("kill"), st.integers(0, n - 1), st.sampled_from(["die", "die", "remove", "stay"])).map(list),
        st.tuples(st.just("spawn"), st.integers(0, n - 1)).map(list),
        st.just(["selfkill", "return"]), st.just(["selfkill", "carry on"]))
    ops = weighted(([], 3), ("op", 1)).flatmap(lambda x: st.lists(op, min_size=1, max_size=2) if x else st.just([]))
    specs = draw(st.lists(fixed(kind=weighted(*[(k, 2) for k in SOIL_KINDS], ("mesa", 3)), when=st.one_of(st.none(), st.none(), offsets),
                                acts=acts(ops, 6), end=weighted(("inf", 2), ("die", 1))), min_size=n, max_size=n))
    return {"sched": draw(sched_names), "interval": draw(st.one_of(st.none(), st.just(0.5))), "agents": specs,
            "initial": list(range(draw(st.integers(1, n)))),
            "outside": draw(st.lists(st.tuples(st.integers(0, 8), st.integers(0, n - 1), st.sampled_from(["die", "remove", "stay"])).map(list), max_size=2))}


def look(w, stay, obs):
    """The living are exactly the ones that can be seen."""
    m = w.model
    alive = {i for i in w.agents if i not in w.killed}
    ids = {w.agents[i].unique_id: i for i in w.agents}
    seen = [ids[a.unique_id] for a in m.get_agents()]
    same(sorted(seen), sorted(alive), "agents found in the model")
    same(m.count_agents(), len(alive), "agents counted")
    same(m.schedule.get_agent_count(), len(alive), "agents in the schedule")
    for i, a in w.agents.items():
        found = m.get_agents(unique_id=a.unique_id)
        require((found == [] if i in w.killed else len(found) == 1 and found[0] is a), "search for agent {} returned {}", i, found)
        if isinstance(a, A.BaseAgent) and w.how.get(i) != "remove":
            same(a.alive, i not in w.killed, "alive flag of agent %d" % i)
        if isinstance(a, A.NetworkAgent):
            if i not in w.killed:
                require(a.node_id in m.G and m.G.nodes[a.node_id].get("agent") is a, "living agent {} lost its node", i)
            elif w.how.get(i) == "die":
                require(w.nodes[i] not in m.G or m.G.nodes[w.nodes[i]].get("agent") is not a, "the node of dead agent {} is still there", i)
            elif w.how.get(i) == "stay":
                require(w.nodes[i] in m.G, "the node of agent {} disappeared although it asked to stay", i)
    net = {id(a) for a in m.network_agents}
    for i, a in w.agents.items():
        if isinstance(a, A.NetworkAgent) and (i not in w.killed or not a.alive):
            same(id(a) in net, i not in w.killed, "presence of agent %d among the network's agents" % i)


class W(World):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.how, self.nodes = {}, {}

    def create(self, ix):
        super().create(ix)
        a = self.agents[ix]
        if isinstance(a, A.NetworkAgent) and ix not in self.nodes:
            self.nodes[ix] = a.node_id

    def kill(self, ix, how):
        if ix in self.agents and ix not in self.killed:
            a = self.agents[ix]
            soil_agent = isinstance(a, A.BaseAgent)
            self.how[ix] = "remove" if how == "remove" or not soil_agent else ("stay" if how == "stay" and isinstance(a, A.NetworkAgent) else "die")
        super().kill(ix, how)

    def bury(self, ix):
        self.how.setdefault(ix, "die")
        super().bury(ix)


def check(case, obs):
    w = W(case)
    m = w.host()()
    outside = sorted(map(tuple, case["outside"]))
    n = 0
    sync = 0
    while m.running and n < 400:
        while outside and outside[0][0] <= n:
            _, v, how = outside.pop(0)
            if v in w.agents and v not in w.killed:
                obs.tag("killed_between_steps")
            w.kill(v, how)
        look(w, None, obs)
        if all(i in w.killed for i in w.agents) or m.now == INF:
            # nobody is left: a step must be harmless
            m.step()
            break
        m.step()
        n += 1
    look(w, None, obs)
    got = w.got()
    for i in w.made:
        full = w.full_times(i)
        if i not in w.killed:
            same(got.get(i, []), full, "activations of the survivor %d (%s)" % (i, case["agents"][i]["kind"]))
        else:
            g, t = got.get(i, []), w.killed[i]
            require(g == full[:len(g)] and len(g) >= len([x for x in full if x < t]) and all(x <= t for x in g),
                    "agent {} killed at {}: activated at {}, would have been at {}", i, t, g, full)
            if case["agents"][i]["kind"] != "x" and any(x == t for x in full):
                obs.tag("killed_when_due")
    obs.tag("killed", int(bool(w.killed)))
    victims = [i for i in w.killed if w.full_times(i)[-1] > w.killed[i]]
    obs.tag("killed_with_future", int(bool(victims)))
    obs.hit(bool(victims) and len(w.log) > 3)


TARGETS = [Target("deaths", cases, check, quick=3600,
                  rule="some agent was killed while it still had activations to come, and more than three activations happened")]
