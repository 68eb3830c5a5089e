"""C08: neighbourhood, subgraph and geographic queries match the network."""
import networkx as nx
from soil.agents.geo import Geo
from vf.lib import *
from vf.core import Target

TECHNIQUE = "generated networks, histories and queries compared with brute force over the adjacency, the attributes and exact squared distances"
ASSUMPTIONS = ["subgraph and geographic queries select network agents; the centre of a geographic search has a position"]


class Net(A.NetworkAgent):
    def step(self):
        pass


class Full(A.Agent):
    @A.default_state
    @A.state
    def s1(self):
        pass

    @A.state
    def s2(self):
        pass


class Place(Geo):
    def step(self):
        pass


class Bystander(A.BaseAgent):
    def step(self):
        pass


CLS = {"Net": Net, "Full": Full, "Place": Place, "Base": A.BaseAgent, "NetAgent": A.NetworkAgent}
GRAPHS = {"g": nx.Graph, "d": nx.DiGraph, "m": nx.MultiGraph, "md": nx.MultiDiGraph}
pick = st.integers(0, 30)
vals = st.sampled_from([0, 1, "a"])
coord = st.integers(-4, 4).map(lambda k: k / 2)
pos = st.one_of(st.none(), st.tuples(coord, coord).map(list), st.tuples(coord, coord).map(list))
node = fixed(name=st.one_of(st.integers(-2, 12), st.sampled_from(["a", "b", "0", "1"])), cls=st.sampled_from(["Net", "Net", "Full", "Full", "Full", "Place", "Place", "Place", None]),
             x=vals, y=vals, sid=st.sampled_from(["s1", "s2"]), pos=pos)
crit = st.one_of(vals, st.lists(vals, max_size=3))


def maybe(s, w=3):
    return st.one_of(*([st.none()] * w + [s]))


query = fixed(kind=st.sampled_from(["neighbors", "neighbors", "neighbors", "subgraph", "geo", "agents", "one_neighbor"]), who=pick, center=st.sampled_from([None, True, False]),
              radius=st.sampled_from([0, 0.5, 1, 1.5, 2, 2.5, 3, 5]),
              cls=maybe(st.sampled_from(["Net", "Full", "Place", "Base", "NetAgent", "mesa"])), sid=maybe(st.sampled_from(["s1", "s2", ["s1", "s2"], []])),
              ids=maybe(st.one_of(st.integers(0, 9), st.lists(st.integers(0, 9), max_size=6)), 3),
              kw=st.one_of(st.just({}), st.dictionaries(st.sampled_from(["x", "y"]), crit, max_size=2)), limit=maybe(st.integers(0, 3), 4))


def cases():
    attrs = st.dictionaries(st.sampled_from(["weight", "kind", "x", "since"]), vals, max_size=2)
    op = st.one_of(query.map(lambda q: ["query", q]), query.map(lambda q: ["query", q]), query.map(lambda q: ["query", q]),
                   st.tuples(pick, pick, attrs, attrs).map(lambda t: ["edge"] + list(t)),
                   st.tuples(pick, st.booleans()).map(lambda t: ["kill"] + list(t)),
                   st.tuples(pick, st.sampled_from(["x", "y"]), vals).map(lambda t: ["set"] + list(t)),
                   st.tuples(pick, pick).map(lambda t: ["unlink"] + list(t)), st.tuples(pick, pick, st.booleans()).map(lambda t: ["badlink"] + list(t)))
    return fixed(graph=st.sampled_from(["g", "g", "d", "d", "m", "md"]), space=st.booleans(), third=st.lists(coord, min_size=8, max_size=8), nodes=st.lists(node, min_size=4, max_size=8, unique_by=lambda n: (type(n["name"]).__name__, n["name"])),
                 edges=st.lists(st.tuples(pick, pick).map(list), min_size=3, max_size=16), byst=st.integers(0, 2), ops=st.lists(op, min_size=5, max_size=14))


def check(case, obs):
    G = GRAPHS[case["graph"]]()
    directed = G.is_directed()
    poses = {}
    for i, n in enumerate(case["nodes"]):
        G.add_node(n["name"])
        if n["pos"] is not None:
            poses[n["name"]] = list(n["pos"]) + ([case["third"][i]] if case["space"] else [])
            G.nodes[n["name"]]["pos"] = tuple(poses[n["name"]])
    ns = [n["name"] for n in case["nodes"]]
    links = []                           # the model: (u, v, attributes)
    for u, v in case["edges"]:
        u, v = ns[u % len(ns)], ns[v % len(ns)]
        G.add_edge(u, v)
        links.append((u, v))
    env = E.Environment(topology=G)
    live, where = [], {}
    for n in case["nodes"]:
        if n["cls"] is None:
            continue
        kw = {"x": n["x"], "y": n["y"]}
        if n["cls"] == "Full":
            kw["state_id"] = n["sid"]
        a = env.add_agent(CLS[n["cls"]], node_id=n["name"], **kw)
        live.append(a)
        where[a.unique_id] = n["name"]
    for _ in range(case["byst"]):
        env.add_agent(Bystander, x=0)
    everyone = list(live)
    gone = set()
    removed = []

    def adjacent(u):
        out = set()
        for a, b in links:
            if a == u:
                out.add(b)
            if b == u and not directed:
                out.add(a)
        return out

    def matches(a, q, state):
        if q["ids"] is not None and a.unique_id not in (q["ids"] if isinstance(q["ids"], list) else [q["ids"]]):
            return False
        if q["cls"] is not None and not isinstance(a, mesa.Agent if q["cls"] == "mesa" else CLS[q["cls"]]):
            return False
        if q["sid"] is not None and getattr(a, "state_id", None) not in (q["sid"] if isinstance(q["sid"], list) else [q["sid"]]):
            return False
        return all(any(getattr(a, k, None) == x for x in (v if isinstance(v, list) else [v])) for k, v in state.items())

    for op in case["ops"]:
        if op[0] == "edge":
            cand = [a for a in live]
            if not cand:
                continue
            a, b = cand[op[1] % len(cand)], cand[op[2] % len(cand)]
            want = {**op[3], **op[4]}
            u, v = where[a.unique_id], where[b.unique_id]
            before = {}
            if env.G.has_edge(u, v) and not env.G.is_multigraph():
                before = dict(env.G.edges[u, v])
            nb = env.G.number_of_edges()
            known = env.G.has_edge(u, v)
            if op[3]:
                a.add_edge(b, op[3], **op[4])
            else:
                a.add_edge(b, **op[4])
            if env.G.is_multigraph():
                require(any(d == want for d in env.G.get_edge_data(u, v).values()), "add_edge({!r}, {!r}): no link with attributes {}", u, v, want)
                same(env.G.number_of_edges(), nb + 1, "links after add_edge")
            else:
                same(dict(env.G.edges[u, v]), {**before, **want}, "attributes of the added link")
                same(env.G.number_of_edges(), nb + (0 if known else 1), "links after add_edge")
            links.append((u, v))
            obs.tag("edge_attrs", int(bool(want)))
        elif op[0] == "kill":
            if len(live) < 2:
                continue
            a = live.pop(op[1] % len(live))
            n = where[a.unique_id]
            a.die(remove=op[2])
            if op[2]:
                links[:] = [l for l in links if n not in l]
                gone.add(n)
                removed.append(a)
                poses.pop(n, None)
                everyone.remove(a)
        elif op[0] == "set":
            if live:
                setattr(live[op[1] % len(live)], op[2], op[3])
        elif op[0] == "badlink":
            # an agent that has left the network cannot be linked, and trying changes nothing
            if not (removed and live):
                continue
            a, b = live[op[1] % len(live)], removed[op[2] % len(removed)]
            if op[3]:
                a, b = b, a
            before = (list(env.G.nodes), list(env.G.edges))
            try:
                a.add_edge(b)
            except Exception:
                obs.tag("badlink")
            else:
                raise Violation("a link between %r and %r, of which one has left the network" % (a, b))
            same((list(env.G.nodes), list(env.G.edges)), before, "network after a link that is not possible")
        elif op[0] == "unlink":
            if not links:
                continue
            u, v = links[op[1] % len(links)]
            while env.G.has_edge(u, v):
                env.G.remove_edge(u, v)
            links[:] = [l for l in links if l != (u, v) and (directed or l != (v, u))]
        else:
            q = op[1]
            pool = everyone if q["kind"] in ("neighbors", "one_neighbor") else live
            if q["kind"] == "geo":
                pool = [a for a in live if isinstance(a, Geo) and where[a.unique_id] in poses]
            if not pool:
                continue
            run_query(env, q, pool[q["who"] % len(pool)], live, where, adjacent, matches, poses, links, directed, obs)


def run_query(env, q, me, live, where, adjacent, matches, poses, links, directed, obs):
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in q["kw"].items()}
    if q["ids"] is not None:
        kw["unique_id"] = list(q["ids"]) if isinstance(q["ids"], list) else q["ids"]
    if q["sid"] is not None:
        kw["state_id"] = q["sid"]
    if q["cls"] is not None:
        kw["agent_class"] = mesa.Agent if q["cls"] == "mesa" else CLS[q["cls"]]
    state = q["kw"]
    limit = q["limit"]
    here = where[me.unique_id]
    uid = lambda l: sorted(a.unique_id for a in l)
    if q["kind"] in ("neighbors", "one_neighbor"):
        adj = adjacent(here)
        want = [a for a in live if where[a.unique_id] in adj and matches(a, q, state)]
        if limit is not None and q["kind"] == "neighbors":
            got = list(me.get_neighbors(limit=limit, **kw))
            require(len(set(map(id, got))) == len(got) == min(limit, len(want)) and all(any(g is w for w in want) for g in got),
                    "neighbours of {!r} ({}), limit {}: got {}, expected that many of {}", here, q, limit, uid(got), uid(want))
            return
        got = list(me.get_neighbors(**kw))
        same(uid(got), uid(want), "neighbours of node %r (%r)" % (here, q))
        same(uid(me.iter_neighbors(**kw)), uid(want), "iterated neighbours of node %r" % (here,))
        same(me.count_neighbors(**kw), len(want), "neighbour count of node %r" % (here,))
        same(uid(me.get_agents(limit_neighbors=True, **kw)), uid(want), "agents limited to neighbours of %r" % (here,))
        same(me.count_agents(limit_neighbors=True, **kw), len(want), "count of agents limited to neighbours of %r" % (here,))
        obs.tag("neighbors_found", int(bool(want)))
        obs.tag("adjacent_filtered", int(any(where[a.unique_id] in adj and a not in want for a in live)))
        obs.hit(bool(want) and len(want) < len(live))
        return
    if q["kind"] == "agents":
        want = [a for a in live if matches(a, q, state)]
        kw["agent_class"] = kw.get("agent_class", A.NetworkAgent)
        if kw["agent_class"] in (mesa.Agent, A.BaseAgent):
            return
        same(uid(me.get_agents(**kw)), uid(want), "agents found from %r" % (here,))
        return
    if "agent_class" not in kw or kw["agent_class"] in (mesa.Agent, A.BaseAgent):
        kw["agent_class"] = A.NetworkAgent
    sel = {where[a.unique_id] for a in live if matches(a, q, state) and isinstance(a, kw["agent_class"])}
    if q["kind"] == "subgraph":
        center = q["center"] in (None, True)
        if q["center"] is not None:
            kw["center"] = q["center"]
        sg = me.subgraph(**kw)
        want = sel | ({here} if center else set())
        same(set(map(repr, sg.nodes)), set(map(repr, want)), "nodes of the subgraph around %r (%r)" % (here, q))
        norm = lambda u, v: repr((u, v)) if directed else repr(sorted((u, v), key=repr))
        full = lambda g: sorted(norm(u, v) + repr(d) for u, v, d in g.edges(data=True) if u in want and v in want)
        same(full(sg), full(env.G), "links of the subgraph")
        same({norm(u, v) for u, v in sg.edges()}, {norm(u, v) for u, v in links if u in want and v in want}, "links of the subgraph against the links made")
        obs.hit(1 < len(want) < len(env.G) and sg.number_of_edges() > 0)
        obs.tag("subgraph", int(len(want) > 1))
        return
    # geographic
    c = poses[here]
    r = q["radius"]
    inside = {n for n in sel | {here} if n in poses and sum((a - b) ** 2 for a, b in zip(poses[n], c)) <= r * r}
    if q["center"]:
        kw["center"] = True
    else:
        inside.discard(here)
        if q["center"] is False:
            kw["center"] = False
    got = me.geo_search(r, **kw)
    same(sorted(map(repr, got)), sorted(map(repr, inside)), "nodes within %r of %r (%r)" % (r, here, q))
    obs.tag("geo_found", int(bool(inside)))
    obs.hit(bool(inside) and len(inside) < len(live) - 1)


TARGETS = [Target("queries", cases, check, quick=5000, rule="some query has matches but does not select every agent (subgraphs: also contains a link)")]
