"""C07: network agents and nodes stay in one-to-one correspondence."""
import networkx as nx
from vf.lib import *
from vf.core import Target

TECHNIQUE = "stateful model-based histories of populating, adding and removing agents, invariant checked after every operation"
ASSUMPTIONS = ["requested nodes are free; node names do not start with 'node_for_'; agents that others create while being initialised do not ask for a given node"]


class Net(A.NetworkAgent):
    def step(self):
        pass


class Full(A.Agent):
    @A.default_state
    @A.state
    def s(self):
        pass


class Mesa(mesa.Agent):
    def step(self):
        pass


CLS = {"Net": Net, "Full": Full, "Mesa": Mesa}
names = st.one_of(st.integers(0, 8), st.integers(-3, 12), st.sampled_from(["0", "1", "a", "b", "node", "3", "x y", 100]))
pick = st.integers(0, 30)
netcls = st.sampled_from(["Net", "Net", "Full"])


def cases():
    op = st.one_of(
        netcls.map(lambda c: ["add", c]), netcls.map(lambda c: ["add", c]),
        st.tuples(netcls, pick).map(lambda t: ["add_at"] + list(t)),
        netcls.map(lambda c: ["add_node", c]),
        st.tuples(netcls, names).map(lambda t: ["add_node_at"] + list(t)),
        st.tuples(st.lists(netcls, min_size=1, max_size=2), st.integers(1, 4)).map(lambda t: ["add_agents"] + list(t)),
        st.lists(st.sampled_from(["Net", "Full", "Mesa"]), min_size=1, max_size=2).map(lambda c: ["populate", c]),
        st.tuples(pick, st.booleans()).map(lambda t: ["kill"] + list(t)),
        st.tuples(pick, st.booleans()).map(lambda t: ["kill"] + list(t)),
        names.map(lambda n: ["free_node", n]),
        st.tuples(pick, pick).map(lambda t: ["edge"] + list(t)),
        st.just(["step"]))
    return fixed(nodes=st.lists(names, max_size=7, unique_by=lambda n: (type(n).__name__, n)), edges=st.one_of(st.lists(st.tuples(pick, pick).map(list), max_size=8), st.lists(st.tuples(pick, pick).map(list), min_size=15, max_size=40)),
                 directed=st.booleans(), ctor=weighted((False, 3), (True, 1)), seed=st.integers(0, 9), ops=st.lists(op, min_size=1, max_size=12))


def check(case, obs):
    G = nx.DiGraph() if case["directed"] else nx.Graph()
    for i, n in enumerate(case["nodes"]):
        G.add_node(n, tag=i)
    ns = list(G)
    if ns:
        for u, v in case["edges"]:
            G.add_edge(ns[u % len(ns)], ns[v % len(ns)])
    tags = dict(G.nodes(data="tag"))
    edges = {frozenset(e) if not case["directed"] else e for e in G.edges}
    kw = {}
    if ns:
        kw["topology"] = G
        if case["ctor"]:
            kw["agent_class"] = Net
    env = E.Environment(seed=str(case["seed"]), **kw)
    directed = env.G.is_directed()
    at = {n: None for n in ns}     # who sits where (also the dead who stayed)
    agents = []                    # living ones
    dead = []

    def settle(what, expect_new=None, allowed=None, count=None, brand_new=None):
        """Work out what the operation added from the graph itself and check it against the rules."""
        cur = {n: d.get("agent") for n, d in env.G.nodes(data=True)}
        for n, a in at.items():
            require(n in cur, "{}: node {!r} disappeared", what, n)
            if a is not None:
                require(cur[n] is a, "{}: node {!r} no longer holds its agent", what, n)
        added = [(n, a) for n, a in cur.items() if a is not None and at.get(n) is None]
        newnodes = [n for n in cur if n not in at]
        if count is not None:
            same(len(added), count, what + ": nodes taken")
        for n, a in added:
            agents.append(a)
        for n, a in cur.items():
            at[n] = a
        return added, newnodes

    def invariant(what):
        cur = {n: d.get("agent") for n, d in env.G.nodes(data=True)}
        same(set(map(repr, cur)), set(map(repr, at)), what + ": nodes")
        for n, a in cur.items():
            require(a is at[n], "{}: node {!r} holds {} instead of {}", what, n, a, at[n])
            require(env.agent_for_node_id(n) is a, "{}: agent_for_node_id({!r}) is wrong", what, n)
        seats = [n for n, a in cur.items() if a is not None]
        ids = [id(cur[n]) for n in seats]
        require(len(set(ids)) == len(ids), "{}: an agent sits on two nodes", what)
        for a in agents:
            if isinstance(a, A.NetworkAgent):
                require(a.node_id in cur and cur[a.node_id] is a, "{}: {} says it is on {!r}, which holds {}", what, a, a.node_id, cur.get(a.node_id))
                require(a.node is env.G.nodes[a.node_id] or a.node == env.G.nodes[a.node_id], "{}: wrong node data", what)
        same(sorted(map(id, env.network_agents)), sorted(map(id, agents)), what + ": living agents of the network")
        same(len(env.get_agents()), len(agents), what + ": agents in the model")
        for n, t in tags.items():
            if n in cur:
                same(env.G.nodes[n].get("tag"), t, what + ": node attributes")
        got = {frozenset(e) if not directed else e for e in env.G.edges}
        same(got, edges, what + ": links")

    if kw.get("agent_class"):
        added, new = settle("construction", count=len(ns))
        same(new, [], "construction: new nodes")
    invariant("construction")

    for op in case["ops"]:
        kind = op[0]
        free = [n for n, a in at.items() if a is None]
        before = len(at)
        what = "%s" % (op,)
        if kind in ("add", "add_node"):
            a = env.add_agent(CLS[op[1]]) if kind == "add" else env.add_node(CLS[op[1]])
            added, new = settle(what, count=1)
            require(added[0][1] is a and type(a) is CLS[op[1]], "{}: the node does not hold the returned agent", what)
            if free:
                obs.tag("took_free")
                require(added[0][0] in free and not new, "{}: node {!r} was used although {} were free", what, added[0][0], free)
            else:
                obs.tag("new_node")
                require(len(new) == 1 and added[0][0] == new[0] and len(at) == before + 1, "{}: a new node should have been added", what)
        elif kind == "add_at":
            if not free:
                continue
            n = free[op[2] % len(free)]
            a = env.add_agent(CLS[op[1]], node_id=n)
            added, new = settle(what, count=1)
            require(added[0][0] == n and type(added[0][0]) is type(n) and not new and added[0][1] is a, "{}: the requested node was not used", what)
            obs.tag("requested")
        elif kind == "add_node_at":
            n = op[2]
            if at.get(n) is not None:
                try:
                    env.add_node(CLS[op[1]], node_id=n)
                except Exception:
                    obs.tag("occupied")
                else:
                    raise Violation("%s: the node %r, which is taken, was given to another agent" % (what, n))
                invariant(what)
                continue
            isnew = n not in at
            a = env.add_node(CLS[op[1]], node_id=n)
            added, new = settle(what, count=1)
            require(added[0][0] == n and len(new) == int(isnew) and added[0][1] is a, "{}: the requested node was not used", what)
        elif kind == "add_agents":
            env.add_agents([CLS[c] for c in op[1]], k=op[2])
            added, new = settle(what, count=op[2])
            same(len(new), max(0, op[2] - len(free)), what + ": new nodes")
            require(all(type(a) in [CLS[c] for c in op[1]] for _, a in added), "{}: wrong classes", what)
        elif kind == "populate":
            if not at or not (free or agents):
                continue
            env.populate_network([CLS[c] for c in op[1]])
            added, new = settle(what, count=len(free))
            same(new, [], what + ": new nodes")
            require(all(type(a) in [CLS[c] for c in op[1]] for _, a in added), "{}: wrong classes", what)
            obs.tag("populate_partial", int(0 < len(free) < before))
        elif kind == "kill":
            cand = [a for a in agents if isinstance(a, A.NetworkAgent)]
            if not cand:
                continue
            a = cand[op[1] % len(cand)]
            n = a.node_id
            a.die(remove=op[2])
            agents[:] = [b for b in agents if b is not a]
            if op[2]:
                del at[n]
                tags.pop(n, None)
                edges -= {e for e in edges if n in e}
                same(a.node_id, None, "node of a removed agent")
                obs.tag("removed")
            else:
                obs.tag("stayed")
        elif kind == "free_node":
            if op[1] not in at:
                env.G.add_node(op[1])
                at[op[1]] = None
        elif kind == "edge":
            cand = [a for a in agents if isinstance(a, A.NetworkAgent)]
            if len(cand) < 1:
                continue
            a, b = cand[op[1] % len(cand)], cand[op[2] % len(cand)]
            a.add_edge(b)
            e = (a.node_id, b.node_id)
            edges.add(e if directed else frozenset(e))
        elif kind == "step":
            if agents and env.running:
                env.step()
        invariant(what)
    obs.hit(len(agents) >= 2 and bool(obs.tags.keys() & {"removed", "stayed", "took_free", "new_node"}))


def nested():
    how = st.sampled_from(["add", "add_node", "add_agents"])
    kid = st.tuples(how, st.sampled_from(["Net", "Full", "Parent"]), st.integers(1, 2)).map(list)
    op = st.one_of(st.just(["populate"]), st.just(["add"]), st.just(["add_node"]), st.integers(0, 20).map(lambda i: ["add_at", i]), st.integers(1, 3).map(lambda k: ["add_agents", k]),
                   st.integers(1, 3).map(lambda k: ["grow", k]))
    return fixed(n=st.integers(0, 6), ctor=st.booleans(), plan=st.lists(st.one_of(st.none(), kid, kid), min_size=1, max_size=8), seed=st.integers(0, 9),
                 ops=st.lists(op, max_size=4))


def check_nested(case, obs):
    """Agents that create other agents while they are being initialised."""
    plan, born = list(case["plan"]), []

    class Parent(A.NetworkAgent):
        def init(self):
            self.seat = self.node_id
            born.append(self)
            env = self.model
            require(env.G.nodes[self.node_id].get("agent") is self, "a new agent is not on its own node while being initialised")
            what = plan.pop(0) if plan else None
            if what is None:
                return
            how, cls, k = what
            cls = dict(CLS, Parent=Parent)[cls]
            if how == "add":
                env.add_agent(cls)
            elif how == "add_node":
                env.add_node(cls)
            else:
                env.add_agents([cls], k=k)

        def step(self):
            pass

    G = nx.path_graph(case["n"])
    kw = {"agent_class": Parent} if case["ctor"] and case["n"] else {}
    env = E.Environment(seed=str(case["seed"]), topology=G if case["n"] else None, **kw)

    def verify(what, nodes, free, reserved):
        agents = list(env.schedule.agents)
        if not agents:
            return
        cur = {n: d.get("agent") for n, d in env.G.nodes(data=True)}
        for a in agents:
            require(cur.get(a.node_id) is a, "{}: {} says it is on {!r}, which holds {}", what, a, a.node_id, cur.get(a.node_id))
        require(len({a.node_id for a in agents}) == len(agents), "{}: two agents on one node", what)
        same(sorted(map(id, env.network_agents)), sorted(map(id, agents)), what + ": agents of the network")
        for a in born:
            same(a.node_id, a.seat, what + ": the node of an agent that was already placed")
        for n in reserved:
            require(type(cur[n]) is Parent, "{}: node {!r} was given to an agent created by others ({})", what, n, cur[n])
        if reserved:
            same(len(env.G), max(nodes, len(agents)), what + ": nodes")
        taken = len([a for a in cur.values() if a is not None])
        if len(env.G) > nodes:
            same(taken, len(env.G), what + ": nodes were added although others were free; nodes in use")

    if kw:
        verify("construction", case["n"], case["n"], list(range(case["n"])))
    for op in case["ops"]:
        free = [n for n, d in env.G.nodes(data=True) if d.get("agent") is None]
        nodes = len(env.G)
        reserved = []
        if op[0] == "grow":
            for i in range(op[1]):
                env.G.add_node("g%d" % (len(env.G)))
            continue
        elif op[0] == "populate":
            if not nodes:
                continue
            reserved = free
            env.populate_network(Parent)
        elif op[0] == "add":
            env.add_agent(Parent)
        elif op[0] == "add_node":
            env.add_node(Parent)
        elif op[0] == "add_at":
            if not free:
                continue
            a = env.add_agent(Parent, node_id=free[op[1] % len(free)])
            same(a.node_id, free[op[1] % len(free)], "requested node")
        else:
            env.add_agents([Parent], k=op[1])
        verify(str(op), nodes, free, reserved)
    for a in env.schedule.agents:
        if type(a) is Parent:
            require(any(a is b for b in born), "a parent was not initialised")
    same(len(born), len([a for a in env.schedule.agents if type(a) is Parent]), "initialisations")
    obs.tag("populating", int(bool(kw) or any(o[0] == "populate" for o in case["ops"])))
    obs.hit(len(env.schedule.agents) > len(born) or len(born) >= 3)


# ---- networks that say who is on each node
class Base(A.BaseAgent):
    def step(self):
        pass


class Fsm(A.FSM):
    @A.default_state
    @A.state
    def s(self):
        pass


def marked():
    return fixed(names=st.lists(names, min_size=1, max_size=6, unique_by=lambda x: (type(x).__name__, x)), k=st.integers(1, 6), cls=st.sampled_from(["base", "fsm"]), who=st.lists(st.one_of(st.none(), st.integers(0, 7)), min_size=6, max_size=6),
                 edges=st.lists(st.tuples(pick, pick), max_size=5), more=st.integers(0, 4), claim=weighted((None, 4), (0, 1), (3, 1), (-1, 1)), form=st.sampled_from(["graph", "data"]))


def check_marked(case, obs):
    G = nx.Graph()
    for x, w in zip(case["names"], case["who"]):
        G.add_node(x, **({} if w is None else {"agent_id": w}))
    nn = list(G)
    G.add_edges_from((nn[i % len(nn)], nn[j % len(nn)]) for i, j in case["edges"])
    want = {x: w for x, w in zip(case["names"], case["who"]) if w is not None}
    valid = all(w < case["k"] for w in want.values()) and len(set(want.values())) == len(want)
    kw = dict(topology=nx.node_link_data(G) if case["form"] == "data" else G, agents=dict(agent_classes=[{"base": Base, "fsm": Fsm}[case["cls"]]], k=case["k"]))
    if case["claim"] is not None:
        # the agents say where they are
        x = "nowhere" if case["claim"] < 0 else nn[case["claim"] % len(nn)]
        kw["agents"]["node_id"] = x
        valid = x in G and case["k"] == 1 and (not want or want == {x: 0})
        want = {x: 0}
    if not valid:
        try:
            soil.Environment(**kw)
        except Exception:
            obs.tag("refused")
            return
        raise Violation("a network whose nodes have unknown or repeated agents was accepted: %r" % (want,))
    env = soil.Environment(**kw)
    by = {a.unique_id: a for a in env.schedule.agents}

    def verify():
        for x in nn:
            same(getattr(env.agent_for_node_id(x), "unique_id", None), want.get(x), "agent on node %r" % (x,))
            if x in want:
                require(env.agent_for_node_id(x) is by[want[x]], "the agent on node {!r} is not in the schedule", x)
                same(by[want[x]].node_id, x, "node of agent %r" % want[x])
        same([a.unique_id for a in env.network_agents], [want[x] for x in env.G if x in want], "agents in the network")
        for a in by.values():
            if a.unique_id not in want.values():
                require(getattr(a, "node_id", None) is None, "agent {} was not assigned to a node", a.unique_id)

    same(sorted(by), list(range(case["k"])), "agents")
    verify()
    for _ in range(case["more"]):
        a = env.add_agent(Net)
        if a.node_id not in nn:
            require(all(x in want for x in nn), "a new node was added, but there were free ones")
            nn.append(a.node_id)
        require(a.node_id not in want, "agent {} was placed on a node that has an agent", a.unique_id)
        want[a.node_id] = a.unique_id
        by[a.unique_id] = a
        verify()
    obs.hit(bool(want))


TARGETS = [Target("marked", marked, check_marked, quick=800, rule="some node has an agent from the start"),
           Target("assignment", cases, check, quick=4000, rule="at least two living agents at the end and at least one placement decision or death"),
           Target("nested", nested, check_nested, quick=1500, rule="agents were created in the initialisation of others")]
