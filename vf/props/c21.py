"""C21: the model's network is exactly the one that was asked for."""
import copy, importlib, os
import networkx as nx
import yaml
from vf.lib import *
from vf.core import Target
from soil import network as N

TECHNIQUE = "round trip of generated graphs through every way of giving a topology (objects, node-link data, files in nine formats, relative and absolute, through environments, simulations and configuration files); recorded calls of network generators"
ASSUMPTIONS = ["node attributes named `agent` or `agent_id` are soil's own; GEXF files have integer node names; formats that cannot hold something (isolated nodes, attributes, types) are not asked to"]

FORMATS = ["graph", "dict", "gexf", "graphml", "gml", "edgelist", "adjlist", "multiline_adjlist", "weighted_edgelist", "graph6", "pajek"]
val = st.one_of(st.integers(-5, 5), st.sampled_from([0.5, -1.25, 3.0]), st.sampled_from(["a", "two words", "x<y&z", 'q"q', "é", "1"]), st.booleans())
attrs = st.dictionaries(st.sampled_from(["w", "kind", "colour"]), val, max_size=2)


def cases():
    return fixed(fmt=weighted(("graph", 3), ("dict", 3), ("gexf", 2), *[(f, 1) for f in FORMATS[3:]]), n=st.integers(0, 6), directed=st.booleans(), multi=st.booleans(),
                 edges=st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5), attrs).map(list), max_size=8), nattrs=st.lists(attrs, min_size=6, max_size=6), names=st.sampled_from(["int", "str", "gaps"]),
                 via=st.sampled_from(["function", "env", "base_env", "create", "sim", "params_path", "config"]), path=st.sampled_from(["abs", "rel", "sub", "cwd", "dots", "here", "up"]), populate=st.booleans(), decoy=st.booleans(), gattr=st.booleans(), drop=st.booleans())


def name(case, i):
    kind = case["names"]
    if case["fmt"] in ("gexf",):
        kind = "gaps" if kind == "gaps" else "int"
    if case["fmt"] == "graph6":
        kind = "int"
    if case["fmt"] in ("graphml", "gml", "edgelist", "adjlist", "multiline_adjlist", "weighted_edgelist", "pajek"):
        kind = "str"
    return {"int": i, "gaps": i * 3 + 1, "str": "n%d" % i}[kind]


def wanted(case):
    """The graph that is asked for, restricted to what its format can hold."""
    f = case["fmt"]
    directed = case["directed"] and f not in ("edgelist", "adjlist", "multiline_adjlist", "weighted_edgelist", "graph6", "pajek")
    multi = (case["multi"] and f in ("graph", "dict")) or f == "pajek"
    G = {(False, False): nx.Graph, (True, False): nx.DiGraph, (False, True): nx.MultiGraph, (True, True): nx.MultiDiGraph}[directed, multi]()
    n = case["n"]
    if f != "graph":
        n = max(1, n)
    for i in range(n):
        a = dict(case["nattrs"][i]) if f in ("graph", "dict", "gexf", "graphml", "gml") else {}
        G.add_node(name(case, i), **clean(f, a))
    for u, v, a in case["edges"]:
        if not n:
            break
        u, v = name(case, u % n), name(case, v % n)
        if f in ("gexf", "graph6", "gml", "adjlist", "multiline_adjlist", "weighted_edgelist") and u == v:
            continue
        if G.has_edge(u, v) and not multi:
            continue
        if f == "pajek" and G.has_edge(u, v):
            continue
        a = dict(a) if f in ("graph", "dict", "gexf", "graphml", "gml", "edgelist", "multiline_adjlist") else {}
        a = clean(f, a)
        if f == "weighted_edgelist":
            a = {"weight": 1.5 + len(G.edges)}
        if f == "pajek":
            a = {"weight": 1.0}
        G.add_edge(u, v, **a)
    if f in ("edgelist", "weighted_edgelist"):
        G.remove_nodes_from(list(nx.isolates(G)))
    if case["gattr"] and f in ("graph", "dict"):
        G.graph["title"] = "t"
    return G


def clean(f, a):
    if f == "gexf":
        # the type of a GEXF attribute is that of the whole column
        return {k: (v if k == "w" else str(v)) for k, v in a.items() if k != "w" or (type(v) is int)}
    if f == "graphml":
        return {k: (str(v) if k != "w" else v) for k, v in a.items() if k != "w" or type(v) is float}
    if f == "multiline_adjlist":
        return {k: v for k, v in a.items() if not (isinstance(v, str) and " " in v)}
    if f == "gml":
        return {k: v for k, v in a.items() if type(v) is not bool}
    return a


def plain(G, f):
    nodes = {}
    for n, d in G.nodes(data=True):
        nodes[n] = {k: (type(v).__name__, v) for k, v in d.items() if k != "agent" and not (f == "gexf" and k in ("label",)) and not (f == "pajek" and k in ("id", "x", "y", "shape"))}
    edges = []
    for u, v, d in G.edges(data=True):
        if not G.is_directed():
            u, v = sorted([u, v], key=repr)
        edges.append((repr(u), repr(v), sorted((k, type(x).__name__, repr(x)) for k, x in d.items() if not (f in ("gexf", "graphml") and k == "id"))))
    return {"nodes": sorted(((repr(n), sorted((k, repr(v)) for k, v in d.items())) for n, d in nodes.items())), "edges": sorted(edges), "directed": G.is_directed(), "multi": G.is_multigraph(),
            "graph": sorted(map(repr, G.graph.items())) if f in ("graph", "dict") else None}


WRITE = {"gexf": lambda G, p: nx.write_gexf(G, p, version="1.2draft"), "graphml": nx.write_graphml, "gml": nx.write_gml, "edgelist": nx.write_edgelist, "adjlist": nx.write_adjlist,
         "multiline_adjlist": nx.write_multiline_adjlist, "weighted_edgelist": nx.write_weighted_edgelist, "graph6": nx.write_graph6, "pajek": nx.write_pajek}


class Ag(A.NetworkAgent):
    def step(self):
        return 1


class Net(E.NetworkEnvironment):
    def init(self):
        self.found = copy.deepcopy(self.G)
        self.add_agent(Ag)


def make(case, obs):
    """Returns (topology argument, dir_path to give or None)."""
    G = wanted(case)
    f = case["fmt"]
    if f == "graph":
        return G, G, None
    if f == "dict":
        d = nx.node_link_data(G)
        if case.get("drop"):
            # networkx's own defaults for what node-link data does not say
            for key, default in (("directed", False), ("multigraph", True)):
                if d[key] == default:
                    del d[key]
        return G, d, None
    home = os.path.join(obs.scratch, "home")
    os.makedirs(os.path.join(home, "sub"), exist_ok=True)
    rel = {"abs": "g.", "rel": "g.", "sub": os.path.join("sub", "g."), "cwd": "g.", "dots": "g.v1.txt.", "here": "./g.", "up": "sub/../g."}[case["path"]] + f
    if case["path"] == "cwd":
        home = obs.scratch
    p = os.path.join(home, rel)
    WRITE[f](G, p)
    if case["decoy"] and case["path"] in ("rel", "dots", "here", "up"):
        with open(os.path.join(obs.scratch, os.path.basename(rel)), "w") as h:
            h.write("not a graph")
    if case["path"] == "abs":
        return G, p, os.path.join(obs.scratch)
    if case["path"] == "cwd":
        return G, rel, None
    return G, rel, home


def check(case, obs):
    G, top, home = make(case, obs)
    f = case["fmt"]
    keep = copy.deepcopy(top)
    want = plain(G, f)
    kw = {} if home is None else {"dir_path": home}
    via = case["via"]
    if via in ("params_path",) and not isinstance(top, str):
        via = "env"
    if via == "config" and f == "graph":
        via = "sim"
    found = None
    if via == "function":
        got = N.from_topology(top, **kw)
    elif via == "env":
        m = soil.Environment(topology=top, **kw)
        got = m.G
        if case["populate"] and len(got):
            m.populate_network(Ag)
            same(sorted(map(repr, (a.node_id for a in m.network_agents))), sorted(map(repr, G.nodes)), "nodes with an agent")
            found = m.G
    elif via == "base_env":
        got = E.NetworkEnvironment(topology=top, **kw).G
    elif via == "create":
        m = soil.Environment(**kw)
        m.create_network(top)
        got = m.G
    elif via == "params_path":
        got = soil.Environment(network_params={"path": top}, **kw).G
    elif via == "sim":
        with silent():
            ms = S.Simulation(model=Net, parameters={"topology": top}, max_steps=1, iterations=2, exporters=[], **kw).run()
        got = ms[0].found
        same(plain(ms[1].found, f), want, "network of the second iteration")
    else:
        d = home or obs.scratch
        with open(os.path.join(d, "c.yml"), "w") as h:
            yaml.dump({"model": "vf.props.c21.Net", "parameters": {"topology": top}, "max_steps": 1}, h)
        with silent():
            got = S.from_config(os.path.join(d, "c.yml")).run(exporters=[], dump=False)[0].found
    same(plain(got, f), want, "network (%s, %s)" % (f, via))
    if found is not None:
        same(plain(found, f), want, "network once populated")
    if not isinstance(top, nx.Graph):
        same(top, keep, "the topology that was given")
    obs.tag(f)
    obs.tag(via)
    obs.hit(len(G) > 1 and G.number_of_edges() > 0)


# ---- generators
RECORD = []


def gen_seed(n, p=0.5, seed=None):
    RECORD.append(("gen_seed", dict(n=n, p=p), seed))
    return nx.path_graph(n)


def gen_plain(n, p=0.5, label="x"):
    RECORD.append(("gen_plain", dict(n=n, p=p, label=label), None))
    return nx.cycle_graph(n)


def gen_kwargs(**kw):
    RECORD.append(("gen_kwargs", {k: v for k, v in kw.items() if k != "seed"}, kw.get("seed")))
    return nx.DiGraph([(i, i + 1) for i in range(kw["n"])])


def gen_nothing():
    RECORD.append(("gen_nothing", {}, None))
    return nx.star_graph(3)


MODULE = '''
import networkx as nx
from vf.props import c21

def make(n, p=0.5, seed=None):
    c21.RECORD.append(("make", dict(n=n, p=p), seed))
    return nx.star_graph(n)
'''
KNOWN = {
    "complete_graph": fixed(n=st.integers(1, 6)), "path_graph": fixed(n=st.integers(1, 6)), "star_graph": fixed(n=st.integers(1, 5)), "balanced_tree": fixed(r=st.integers(1, 3), h=st.integers(0, 2)),
    "erdos_renyi_graph": fixed(n=st.integers(1, 8), p=st.sampled_from([0.0, 0.3, 0.5, 1.0])), "barabasi_albert_graph": fixed(n=st.integers(4, 9), m=st.integers(1, 3)), "watts_strogatz_graph": fixed(n=st.integers(4, 9), k=st.just(2), p=st.sampled_from([0, 0.5, 1])),
    "random_geometric_graph": fixed(n=st.integers(1, 6), radius=st.sampled_from([0.1, 0.5])), "grid_2d_graph": fixed(m=st.integers(1, 3), n=st.integers(1, 3)), "gnm_random_graph": fixed(n=st.integers(2, 8), m=st.integers(0, 9), directed=st.booleans()),
    "random_tree": fixed(n=st.integers(1, 7)), "empty_graph": fixed(n=st.integers(0, 4))}
RANDOM = {"erdos_renyi_graph", "barabasi_albert_graph", "watts_strogatz_graph", "random_geometric_graph", "gnm_random_graph", "random_tree"}


def gen_cases():
    real = st.sampled_from(sorted(KNOWN)).flatmap(lambda g: fixed(gen=st.just(g), params=KNOWN[g]))
    rec = st.sampled_from(["gen_seed", "gen_plain", "gen_kwargs", "gen_nothing", "make"]).flatmap(lambda g: fixed(gen=st.just(g), params={
        "gen_nothing": st.just({})}.get(g, st.fixed_dictionaries({"n": st.integers(1, 5)}, optional=dict({"p": st.sampled_from([0, 0.25, None])}, **({"label": st.sampled_from(["", "y"])} if g in ("gen_plain", "gen_kwargs") else {}))))))
    return fixed(g=st.one_of(real, rec), seed=st.sampled_from([None, None, 3, 7, 0]), form=st.sampled_from(["name", "full", "function"]), via=st.sampled_from(["env", "create", "sim", "from_params"]), model_seed=st.sampled_from(["a", "b"]))


def check_gen(case, obs):
    g, params = case["g"]["gen"], dict(case["g"]["params"])
    local = g in ("gen_seed", "gen_plain", "gen_kwargs", "gen_nothing")
    path0 = list(sys.path)
    del RECORD[:]
    mod = "vf_gen_" + os.path.basename(obs.scratch)
    takes_seed = g in RANDOM or g in ("gen_seed", "make", "gen_kwargs")
    given = case["seed"] is not None and takes_seed
    if given:
        params["seed"] = case["seed"]
    if g == "make":
        with open(os.path.join(obs.scratch, mod + ".py"), "w") as f:
            f.write(MODULE)
        gen = mod + ".make"
        if case["form"] == "function":
            sys.path.append(obs.scratch)
            importlib.invalidate_caches()
            gen = importlib.import_module(mod).make
            sys.path.remove(obs.scratch)
    elif local:
        gen = globals()[g] if case["form"] == "function" else "vf.props.c21." + g
    else:
        func = getattr(nx.generators, g)
        gen = {"name": g, "full": "networkx.generators." + g, "function": func}[case["form"]]
    keep = dict(params)
    try:
        importlib.invalidate_caches()
        via = case["via"]
        model = None
        if via == "from_params":
            got = N.from_params(gen, dir_path=obs.scratch, **params)
        elif via == "env":
            model = soil.Environment(network_generator=gen, network_params=params, dir_path=obs.scratch, seed=case["model_seed"])
            got = model.G
        elif via == "create":
            model = soil.Environment(dir_path=obs.scratch, seed=case["model_seed"])
            model.create_network(generator=gen, **params)
            got = model.G
        else:
            with silent():
                got = S.Simulation(model=Net, parameters={"network_generator": gen, "network_params": params}, max_steps=1, exporters=[], dir_path=obs.scratch).run()[0].found
    finally:
        sys.path[:] = path0
        sys.modules.pop(mod, None)
    same(params, keep, "the parameters that were given")
    if RECORD or local or g == "make":
        require(len(RECORD) == 1, "the generator was called {} times", len(RECORD))
        n, p, seed = RECORD[0]
        same(n, g, "generator called")
        want = {k: v for k, v in params.items() if k != "seed"}
        if g in ("gen_seed", "make"):
            want = dict({"p": 0.5}, **want)
        if g == "gen_plain":
            want = dict({"p": 0.5, "label": "x"}, **want)
        same(p, want, "parameters the generator was called with")
        if given:
            same(seed, case["seed"], "seed the generator was called with")
        want = {"gen_seed": lambda: nx.path_graph(params["n"]), "make": lambda: nx.star_graph(params["n"]), "gen_plain": lambda: nx.cycle_graph(params["n"]),
                "gen_nothing": lambda: nx.star_graph(3), "gen_kwargs": lambda: nx.DiGraph([(i, i + 1) for i in range(params["n"])])}[g]()
        same(plain(got, "graph"), plain(want, "graph"), "generated network")
        obs.hit(len(params) > 1 or not params)
        return
    if g not in RANDOM or given:
        same(plain(got, "graph"), plain(func(**params), "graph"), "network of %s%r" % (g, params))
    else:
        ref = func(**dict(params, seed=1))
        same((len(got), got.is_directed()), (len(ref), ref.is_directed()), "size of the network of %s%r" % (g, params))
        if g in ("barabasi_albert_graph", "watts_strogatz_graph", "gnm_random_graph", "random_tree") or params.get("p") in (0.0, 1.0):
            same(got.number_of_edges(), ref.number_of_edges(), "links of the network of %s%r" % (g, params))
    obs.tag("seeded" if given else "unseeded")
    obs.hit(len(params) > 1)


# ---- nothing, and mistakes
def bad_cases():
    return fixed(what=st.sampled_from(["none", "none", "format", "missing", "generator", "module", "dict", "type_error", "wrong_params", "seed"]), ext=st.sampled_from(["xyz", "", "txt", "csv", "gpickle0", "net", "json", "GML", "xml"]),
                 cls=st.sampled_from(["Environment", "NetworkEnvironment"]), via=st.sampled_from(["env", "create", "function"]), noise=st.dictionaries(st.sampled_from(["a", "b"]), st.integers(0, 2), max_size=2))


def gen_broken(n, seed=None):
    RECORD.append(n)
    return len(n)


def check_bad(case, obs):
    cls = soil.Environment if case["cls"] == "Environment" else E.NetworkEnvironment
    w = case["what"]
    if w == "none":
        m = cls(**case["noise"])
        require(type(m.G) is nx.Graph and len(m.G) == 0, "network without a topology: {!r}", m.G)
        require(cls().G is not m.G, "two models share their network")
        r = N.from_topology(None)
        require(len(r) == 0 and not r.is_directed(), "no topology gives {!r}", r)
        obs.hit()
        return
    top, gen, params = None, None, {}
    if w == "format":
        top = "g." + case["ext"] if case["ext"] else "g"
        with open(top, "w") as f:
            f.write("1 2\n")
    elif w == "missing":
        top = "nothing.edgelist"
    elif w == "dict":
        top = {"nodes": [{"id": 1}], "links": [{"source": 1}]} if case["noise"] else {"a": 1}
    else:
        gen = {"generator": "no_such_graph", "module": "no_such_module.graph", "type_error": gen_broken, "wrong_params": "complete_graph", "seed": gen_plain}[w]
        params = {"n": 3} if w != "wrong_params" else {"not_a_parameter": 1}
        if w == "seed":
            params["seed"] = 5
    path0 = list(sys.path)
    del RECORD[:]
    try:
        if case["via"] == "function":
            r = N.from_topology(top) if top is not None else N.from_params(gen, **params)
        elif case["via"] == "env":
            r = cls(topology=top, network_generator=gen, network_params=params).G
        else:
            m = cls()
            m.create_network(top, generator=gen, **params)
            r = m.G
    except Exception as ex:
        want = {"format": AttributeError, "missing": FileNotFoundError, "dict": ValueError, "generator": ValueError, "module": ValueError, "type_error": TypeError, "wrong_params": TypeError, "seed": TypeError}[w]
        require(isinstance(ex, want), "{}: {!r} instead of {}", w, ex, want.__name__)
        obs.hit()
        return
    finally:
        sys.path[:] = path0
    raise Violation("%s accepted: %r" % (w, r))


TARGETS = [Target("topologies", cases, check, quick=2400, rule="at least two nodes and a link"),
           Target("generators", gen_cases, check_gen, quick=1200, rule="at least two parameters, or none at all"),
           Target("mistakes", bad_cases, check_bad, quick=200, rule="always")]
