"""C15: the exported database contains exactly the results of all runs."""
import os, sqlite3
from vf.lib import *
from vf.core import Target
from vf import outcomes as O
from soil import analysis, serialization

TECHNIQUE = "stateful: sequences of simulations exported to the same databases, read back and compared with the models' own collectors"
ASSUMPTIONS = ["simulations sharing a database have the same columns, each column of one type, at least one value present from the start; "
               "every run is a Simulation object of its own and does not repeat a parameter combination"]


def cases():
    run = st.tuples(O.simspec, fixed(name=st.sampled_from(["one", "one", "one", "v1.5", "two words"]), overwrite=weighted((False, 4), (True, 1)), backup=weighted((False, 5), (True, 1)),
                                     exporter=st.sampled_from(["SQLite", "default", "class", "soil.exporters.SQLite"]), over=weighted((None, 4), (1, 1), (2, 1)), bare=weighted((False, 2), (True, 1)))).map(lambda t: dict(t[0], **t[1]))
    return fixed(mcols=O.columns, acols=O.columns, tables=st.integers(0, 2), runs=st.lists(run, min_size=1, max_size=4), outdir=st.sampled_from([None, None, "out", "out/deep"]),
                 group=st.sampled_from([None, None, "grp"]), byname=st.booleans(), narrow=weighted((False, 2), (True, 1)))


def check(case, obs):
    if not case["byname"] or case["outdir"] or case["group"]:
        byname = False
    else:
        byname = True
    content = {}                 # database name -> list of (simulation, [(env, params, params_id)])
    for r in case["runs"]:
        kw = O.definition(r, case["mcols"], case["acols"], case["tables"], case.get("narrow"))
        from soil import exporters
        exp = exporters.SQLite if r["exporter"] == "class" else r["exporter"]
        if case["outdir"]:
            kw["outdir"] = os.path.join(obs.scratch, case["outdir"])
        del O.Recorder.log[:]
        with silent():
            sim = S.Simulation(name=r["name"], group=case["group"], dump=True, overwrite=r["overwrite"], backup=r["backup"], exporters=[exp, O.Recorder], **kw)
            res = sim.run(**({} if r["over"] is None else {"iterations": r["over"]}))
        log = list(O.Recorder.log)
        same(len(log), len(res), "notifications")
        if r["overwrite"] or r["backup"]:
            content[r["name"]] = []
            obs.tag("replaced")
        content.setdefault(r["name"], []).append(log)
        for name, logs in content.items():
            base = os.path.join(obs.scratch, case["outdir"] or "soil_output", case["group"] or "", name, name + ".sqlite")
            with silent():
                got = analysis.read_sql(name=name) if byname else analysis.read_sql(base)
            verify(case, name, logs, got, base, obs)
    obs.tag("appended", int(any(len(l) > 1 for l in content.values())))
    obs.hit(sum(len(l) for l in content.values()) > 1 or any(len(x) > 1 for l in content.values() for x in l))


def verify(case, name, logs, got, path, obs):
    runs = [x for log in logs for x in log]
    # model data
    env = got.env
    same(list(env.index.names), ["simulation_id", "params_id", "iteration_id", "step"], "index of the model data")
    want = {}
    for sim, m, params, pid in runs:
        for s, row in enumerate(O.model_rows(m)):
            k = (sim.id, pid, m.id, s)
            require(k not in want, "two runs share their labels: {}", k)
            want[k] = row
    compare(env, want, "model data of " + name)
    # agent data
    want = {}
    for sim, m, params, pid in runs:
        for (s, a), row in O.agent_rows(m).items():
            want[(sim.id, pid, m.id, s, a)] = row
    if case["acols"]:
        same(list(got.agents.index.names), ["simulation_id", "params_id", "iteration_id", "step", "agent_id"], "index of the agent data")
        compare(got.agents, want, "agent data of " + name)
    else:
        same(len(got.agents), 0, "agent rows without agent reporters")
    # configuration
    sims = {sim.id: sim for log in logs for sim, _, _, _ in log}
    same(sorted(got.config.index), sorted(sims), "simulations in the configuration")
    for sid, sim in sims.items():
        row = got.config.loc[sid]
        same(row["name"], sim.name, "configured name")
        for f in ("iterations", "max_steps"):
            same(int(row[f]), getattr(sim, f), "configured " + f)
        same(str(row["seed"]), sim.seed, "configured seed")
        for f in ("parameters", "matrix"):
            same(row[f], serialization.serialize(sim.to_dict()[f])[0], "configured " + f)
    # parameters
    want = {}
    for sim, m, params, pid in runs:
        want[(m.id, pid, sim.id)] = {k: serialization.serialize(v)[0] for k, v in params.items()}
    same(list(got.parameters.index.names), ["iteration_id", "params_id", "simulation_id"], "index of the parameters")
    seen = {}
    for ix, row in zip(got.parameters.index, got.parameters.to_dict("records")):
        require(ix not in seen, "parameters of {} are repeated", ix)
        seen[ix] = {k: v for k, v in row.items() if O.clean(v) is not None}
    if any(not v for v in want.values()):
        obs.tag("no_parameters")
    want = {k: v for k, v in want.items() if v}
    same(sorted(seen), sorted(want), "runs with parameters")
    for k in want:
        same(seen[k], {a: b for a, b in want[k].items() if b is not None}, "parameters of %r" % (k,))
    # tables
    con = sqlite3.connect(path)
    try:
        cols = ["r"] if case.get("narrow") else ["r", "who"]
        for t in range(case["tables"]):
            want = list((sim.id, pid, m.id) + tuple(row[c] for c in cols) for sim, m, params, pid in runs for row in O.table_rows(m, "t%d" % t))
            try:
                rows = con.execute("select simulation_id, params_id, iteration_id, %s from t%d" % (", ".join(cols), t)).fetchall()
            except sqlite3.OperationalError:
                rows = []
            fmt = lambda l: sorted(repr(tuple(O.clean(float(x)) if i == 3 else x for i, x in enumerate(r))) for r in l)
            same(fmt(rows), fmt(want), "table t%d of %s" % (t, name))
            obs.tag("table_rows", int(bool(want)))
    finally:
        con.close()


def compare(df, want, what):
    got = {}
    for ix, row in zip(df.index, df.to_dict("records")):
        ix = tuple(O.clean(i) for i in ix)
        require(ix not in got, "{}: row {} is repeated", what, ix)
        got[ix] = {k: O.clean(v) for k, v in row.items()}
    same(sorted(got, key=repr), sorted(want, key=repr), what + ": rows")
    for k in want:
        a, b = got[k], want[k]
        if sorted(a.items(), key=repr) != sorted(b.items(), key=repr):
            raise Violation("%s: row %r: got %r, expected %r" % (what, k, a, b))


TARGETS = [Target("database", cases, check, quick=320, rule="at least two models are exported to the database")]
