"""C16: exported CSV and GEXF files reproduce the results."""
import csv, os
import networkx as nx
from vf.lib import *
from vf.core import Target
from vf import outcomes as O

TECHNIQUE = "round trip: generated results exported, parsed with independent readers and compared with the models' collectors and networks"
ASSUMPTIONS = ["simulations sharing CSV files have the same columns; node names differ as text; attributes of one name have one type; one configuration per GEXF export"]


# ---- CSV
def csv_cases():
    run = st.tuples(O.simspec, fixed(name=st.sampled_from(["one", "one", "two"]), exporter=st.sampled_from(["csv", "soil.exporters.csv"]), backup=weighted((False, 4), (True, 1)), bare=weighted((False, 3), (True, 1)), clear=st.booleans())).map(
        lambda t: dict(t[0], **t[1])).map(lambda r: dict(r, params={}, matrix={}) if r["bare"] and r["clear"] else r)
    return fixed(mcols=O.columns1, acols=O.columns, tables=st.integers(0, 1), runs=st.lists(run, min_size=1, max_size=3), group=st.sampled_from([None, "grp"]), narrow=weighted((False, 2), (True, 1)))


def cell(text, kind, want, what):
    if want is None:
        same(text, "", what)
    elif kind == "text":
        same(text, want, what)
    elif kind == "bool":
        same(text, str(want), what)
    else:
        try:
            got = float(text)
        except ValueError:
            raise Violation("%s: got %r, expected %r" % (what, text, want))
        same(got, float(want), what)


def check_csv(case, obs):
    runs = {}
    for r in case["runs"]:
        kw = O.definition(r, case["mcols"], case["acols"], case["tables"], case.get("narrow"))
        del O.Recorder.log[:]
        with silent():
            S.Simulation(name=r["name"], group=case["group"], dump=True, backup=r["backup"], outdir=os.path.join(obs.scratch, "out"), exporters=[r["exporter"], O.Recorder], **kw).run()
        runs.setdefault(r["name"], []).extend(O.Recorder.log)
    total = 0
    for name, logs in runs.items():
        d = os.path.join(obs.scratch, "out", case["group"] or "", name)
        want = {}
        for sim, m, params, pid in logs:
            base = (sim.id, m.id, pid)
            want.setdefault("%s.env.csv" % m.id, []).extend(((s,), base, row) for s, row in enumerate(O.model_rows(m)))
            if case["acols"]:
                want.setdefault("%s.agents.csv" % m.id, []).extend((k, base, row) for k, row in O.agent_rows(m).items())
            for t in range(case["tables"]):
                want.setdefault("%s.t%d.csv" % (m.id, t), []).extend(((i,), base, row) for i, row in enumerate(O.table_rows(m, "t%d" % t)))
        same(sorted(f for f in os.listdir(d)), sorted(want), "files in %s" % name)
        for fname, rows in want.items():
            with open(os.path.join(d, fname), newline="") as f:
                got = list(csv.reader(f))
            head, body = got[0], got[1:]
            require(len(set(head)) == len(head), "{}: repeated columns {}", fname, head)
            same(len(body), len(rows), "%s: rows" % fname)
            total += len(body)
            which = fname.split(".")[1]
            cols = {"env": case["mcols"], "agents": case["acols"]}.get(which)
            kinds = {("m%d" if which == "env" else "a%d") % j: c[0] for j, c in enumerate(cols or [])}
            for b, (ix, (sid, iid, pid), row) in zip(body, rows):
                same(len(b), len(head), "%s: cells in a row" % fname)
                d1 = dict(zip(head, b))
                same((d1["simulation_id"], d1["iteration_id"], d1["params_id"]), (sid, iid, pid), "%s: labels" % fname)
                if which in ("env", "agents"):
                    same(int(d1["step"]), ix[0], "%s: step" % fname)
                if which == "agents":
                    same(int(d1["agent_id"]), ix[1], "%s: agent" % fname)
                extra = set(d1) - set(row) - {"simulation_id", "iteration_id", "params_id", "step", "agent_id", ""}
                same(extra, set(), "%s: unexpected columns" % fname)
                for k, v in row.items():
                    kind = kinds.get(k, "text" if k == "who" else "int")
                    cell(d1[k], kind, v, "%s: %s at %s" % (fname, k, ix))
    obs.tag("several_runs_per_file", int(any(len(l) > len({m.id for _, m, _, _ in l}) for l in runs.values())))
    obs.hit(total > 3)


# ---- GEXF
label = st.text(alphabet="abc<>&\"' é1,", min_size=1, max_size=5)
attr = {"weight": O.floats, "kind": label, "count": st.integers(-5, 5), "flag": st.booleans()}


def gexf_cases():
    at = lambda: st.fixed_dictionaries({}, optional=attr)
    node = fixed(name=st.one_of(st.integers(0, 9), label), attrs=st.fixed_dictionaries({}, optional=dict(attr, label=label)), pos=st.one_of(st.none(), st.tuples(O.floats, O.floats).map(list), st.tuples(O.floats, O.floats, O.floats).map(list)))
    return fixed(nodes=st.lists(node, min_size=1, max_size=6, unique_by=lambda n: str(n["name"])), edges=st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9), at()).map(list), max_size=8),
                 directed=st.booleans(), iterations=st.integers(1, 2), steps=st.integers(0, 2), populate=st.integers(0, 6), again=st.booleans(), backup=st.booleans(), mutate=st.booleans())


class Roamer(A.NetworkAgent):
    def step(self):
        if self.model.mutate and self.unique_id == 0 and self.now == 0:
            self.node["count"] = 99
            if len(self.model.G) > 1:
                self.model.agent_for_node_id(list(self.model.G)[-1]) or self.model.G.remove_node(list(self.model.G)[-1])
            self.model.G.add_node("extra", kind="new")


class Net(E.Environment):
    def init(self):
        for n in list(self.G)[: max(1, self.seats)]:
            self.add_agent(Roamer, node_id=n)


SNAPS = []


def snapshot(G):
    return ([(n, sorted((k, repr(v)) for k, v in d.items() if k != "agent"), id(d.get("agent"))) for n, d in G.nodes(data=True)],
            [(u, v, sorted((k, repr(x)) for k, x in d.items())) for u, v, d in G.edges(data=True)], G.is_directed(), sorted(map(repr, G.graph.items())))


class Before(O.Recorder):
    def iteration_end(self, env, params, params_id):
        SNAPS.append(snapshot(env.G))


class After(O.Recorder):
    def iteration_end(self, env, params, params_id):
        same(snapshot(env.G), SNAPS[-1], "the network after exporting it")


def check_gexf(case, obs):
    G = nx.DiGraph() if case["directed"] else nx.Graph()
    for n in case["nodes"]:
        G.add_node(n["name"], **n["attrs"])
        if n["pos"]:
            G.nodes[n["name"]]["pos"] = tuple(n["pos"])
    ns = list(G)
    for u, v, d in case["edges"]:
        G.add_edge(ns[u % len(ns)], ns[v % len(ns)], **d)
    del SNAPS[:]
    for _ in range(2 if case["again"] else 1):
        with silent():
            res = S.Simulation(model=Net, name="net", parameters={"topology": G, "seats": case["populate"], "mutate": case["mutate"]}, iterations=case["iterations"], max_steps=case["steps"], dump=True,
                               outdir=os.path.join(obs.scratch, "out"), exporters=[Before, "gexf", After], backup=case["backup"]).run()
    for m in res:
        back = nx.read_gexf(os.path.join(obs.scratch, "out", "net", m.id + ".gexf"), version="1.2draft")
        same(back.is_directed(), m.G.is_directed(), "direction of the network")
        require(not back.is_multigraph(), "the network came back as a multigraph")
        same(sorted(back.nodes), sorted(str(n) for n in m.G.nodes), "nodes of the GEXF file")
        for n, d in m.G.nodes(data=True):
            b = dict(back.nodes[str(n)])
            same(b.pop("label", None), d.get("label", str(n)), "label of node %r" % (n,))
            viz = b.pop("viz", None)
            w = {k: v for k, v in d.items() if k not in ("agent", "pos", "label")}
            same(typed(b), typed(w), "attributes of node %r" % (n,))
            if "pos" in d:
                p = viz and viz.get("position")
                require(p, "the position of node {!r} is missing", n)
                same((float(p["x"]), float(p["y"])), (float(d["pos"][0]), float(d["pos"][1])), "position of node %r" % (n,))
            else:
                require(not (viz or {}).get("position"), "node {!r} came back with a position", n)
        norm = lambda u, v: (str(u), str(v)) if m.G.is_directed() else tuple(sorted((str(u), str(v))))
        ge = {norm(u, v): {k: x for k, x in d.items() if k != "id"} for u, v, d in back.edges(data=True)}
        we = {norm(u, v): d for u, v, d in m.G.edges(data=True)}
        same(sorted(ge), sorted(we), "links of the GEXF file")
        for e in we:
            g, w = typed(ge[e]), typed(we[e])
            if "weight" not in we[e] and ge[e].get("weight") == 1.0:
                g.pop("weight")
            same(g, w, "attributes of link %r" % (e,))
        obs.tag("agents_on_nodes", int(any("agent" in d for _, d in m.G.nodes(data=True))))
        obs.hit(m.G.number_of_edges() > 0 and any(len(d) > 1 for _, d in m.G.nodes(data=True)))


def typed(d):
    return {k: (float(v) if k == "weight" else v) for k, v in d.items()}


TARGETS = [Target("csv", csv_cases, check_csv, quick=480, rule="more than three rows are written"),
           Target("gexf", gexf_cases, check_gexf, quick=1200, rule="the network has links and some node has attributes besides its agent")]
