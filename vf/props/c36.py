"""C36: a run that fails says so, and what was done before (and what comes after) is not affected.

Faults are injected at a generated point of a generated simulation: in the constructor, the init or the step of the
model or of an agent, in a state, in something an agent awaits, in a reporter, in the network generator or in an
exporter. The reference is the same simulation without the fault."""
import copy, re, sqlite3
import networkx as nx
import pandas as pd
from vf.lib import *
from vf.core import Target
from soil.events import TimedOut
from soil import exporters as X, serialization as Z, utils as U

TECHNIQUE = "fault injection at generated points of generated simulations; the exported data and the runs that follow are compared with those of the same simulation without the fault"
ASSUMPTIONS = ["faults are exceptions other than StopIteration (which ends a generator) and DeadAgent (which is a message to the scheduler)", "a TypeError in the constructor of an agent that is given a node may be raised by the second attempt, without the node"]


class Custom(Exception):
    def __init__(self, what, code=3):
        super().__init__(what)
        self.what, self.code = what, code


class Stop(BaseException):
    pass


ERRORS = {"ValueError": ValueError, "TypeError": TypeError, "AttributeError": AttributeError, "KeyError": KeyError, "Custom": Custom, "KeyboardInterrupt": KeyboardInterrupt,
          "ZeroDivisionError": ZeroDivisionError, "RuntimeError": RuntimeError, "ImportError": ImportError, "OSError": OSError, "UserWarning": UserWarning, "AssertionError": AssertionError,
          "IndexError": IndexError, "NotImplementedError": NotImplementedError, "Stop": Stop, "StopAsyncIteration": StopAsyncIteration, "SystemExit": SystemExit, "PermissionError": PermissionError, "FileNotFoundError": FileNotFoundError, "FileExistsError": FileExistsError, "ConnectionError": ConnectionError, "BrokenPipeError": BrokenPipeError, "EOFError": EOFError, "MemoryError": MemoryError, "RecursionError": RecursionError, "LookupError": LookupError, "Exception": Exception, "NameError": NameError, "ArithmeticError": ArithmeticError, "OperationalError": sqlite3.OperationalError, "NetworkXError": nx.NetworkXError, "TimedOut": TimedOut, "TimeoutError": TimeoutError, "BufferError": BufferError, "UnicodeDecodeError": lambda m: UnicodeDecodeError("utf-8", b"x", 0, 1, m)}


class Fault:
    """The fault that is armed, if any; it goes off each time its point is reached."""
    armed = None
    fired = None

    @classmethod
    def at(cls, place, model, count=None):
        f = cls.armed
        if f is None or f["place"] != place or int(model.id) != f["iteration"] or model.get("shift", 0) != f["shift"]:
            return
        if count is not None and count != f["count"]:
            return
        cls.go_off(f, place)

    @classmethod
    def exporting(cls, place, iteration=None, shift=None):
        f = cls.armed
        if f is None or f["place"] != place or (iteration is not None and (int(iteration) != f["iteration"] or shift != f["shift"])):
            return
        cls.go_off(f, place)


    @classmethod
    def go_off(cls, f, place):
        ex = ERRORS[f["error"]]("injected at " + place)
        cls.fired = cls.fired or []
        cls.fired.append(ex)
        if f["cause"] == "from":
            try:
                raise LookupError("the cause")
            except LookupError as c:
                raise ex from c
        if f["cause"] == "none":
            raise ex from None
        raise ex


class Plain(A.NetworkAgent):
    n = 0

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        Fault.at("agent_new", self.model)

    def init(self):
        Fault.at("agent_init", self.model)

    def step(self):
        self.n += 1
        Fault.at("plain", self.model, self.n)
        return [1, 0.5, 2][(self.unique_id + self.n) % 3]


class Gen(A.BaseAgent):
    n = 0

    def step(self):
        while True:
            self.n += 1
            Fault.at("generator", self.model, self.n)
            yield self.model.random.choice([1, 2])


class Machine(A.Agent):
    n = 0

    @A.default_state
    @A.state
    def first(self):
        self.n += 1
        Fault.at("state", self.model, self.n // 3 + 1)
        return self.second.delay(1)

    @A.state
    def second(self):
        self.n += 1
        yield self.delay(1)
        Fault.at("generator_state", self.model, self.n // 3 + 1)
        return self.third

    @A.state
    async def third(self):
        await self.delay(0.5)
        self.n += 1
        await self.inner()
        return self.first

    async def inner(self):
        await self.delay(0.5)
        Fault.at("awaited", self.model, self.n // 3)


class World(E.Environment):
    shift = 0
    begun = None

    def __init__(self, *args, **kwargs):
        World.begun.append((int(kwargs["id"]), kwargs.get("shift", 0)))
        super().__init__(*args, **kwargs)
        Fault.at("model_new", self)

    def init(self):
        def wire(n, seed=None):
            Fault.at("network", self)
            return nx.path_graph(n)
        self.create_network(generator=wire, n=4)
        self.populate_network([Plain, Machine], weights=[1, 1])
        self.add_agent(Gen)
        self.add_node(Plain)
        Fault.at("model_init", self)
        self.log = []

    def step(self):
        super().step()
        Fault.at("model_step", self, self.schedule.steps)


def draws(m):
    Fault.at("model_reporter", m, m.schedule.steps)
    return sum(a.n for a in m.schedule.agents) * 10 + m.shift


def count(a):
    Fault.at("agent_reporter", a.model, a.n)
    return a.n


class Recorder(X.Exporter):
    events = None

    def sim_start(self):
        Recorder.events.append("start")
        Fault.exporting("sim_start")

    def iteration_end(self, env, params, params_id):
        Recorder.events.append((int(env.id), params.get("shift", 0)))

    def sim_end(self):
        Recorder.events.append("end")
        Fault.exporting("sim_end")


class Last(X.Exporter):
    """The last exporter of the list writes a file, and may fail half way."""
    def iteration_end(self, env, params, params_id):
        Fault.exporting("export", env.id, params.get("shift", 0))
        with self.output("last-{}.txt".format(env.id), mode="a") as f:
            f.write("begin {} {}\n".format(env.id, params.get("shift", 0)))
            Fault.exporting("export_body", env.id, params.get("shift", 0))
            f.write("end\n")


IN_MODEL = ["agent_new", "agent_init", "plain", "generator", "state", "generator_state", "awaited", "model_new", "network", "model_init", "model_step", "model_reporter", "agent_reporter"]
IN_EXPORT = ["sim_start", "export", "export_body", "sim_end"]


def cases():
    return fixed(place=st.one_of(st.sampled_from(IN_MODEL), st.sampled_from(IN_MODEL[3:7]), st.sampled_from(IN_EXPORT)), error=st.one_of(st.sampled_from(["KeyError", "AttributeError", "TypeError", "ValueError", "RuntimeError", "KeyboardInterrupt"]), st.sampled_from(sorted(ERRORS))), cause=weighted((None, 2), ("from", 1), ("none", 1)), iteration=st.integers(0, 2), shift=st.sampled_from([0, 1]), count=st.sampled_from([1, 1, 2, 3]),
                 iterations=st.integers(1, 3), matrix=st.booleans(), max_time=st.sampled_from([6, 8.5]), steps=st.booleans(), exporters=st.lists(st.sampled_from(["csv", "SQLite", "default", "YAML", "gexf", "summary"]), unique=True, max_size=3).map(lambda l: [x for x in l if "default" not in l or x not in ("SQLite", "YAML")]),
                 via=st.sampled_from(["run", "run", "run", "replaced", "main", "model", "function"]), prior=st.booleans(), backup=st.booleans(), overwrite=st.booleans(), seed=st.sampled_from(["s", "t"]), dump=weighted((True, 5), (False, 1)), source=st.booleans()).map(reachable)


def reachable(case):
    return dict(case, iteration=case["iteration"] % case["iterations"], shift=case["shift"] if case["matrix"] else 0)


def build(case, outdir):
    if case["source"]:
        path = os.path.join(os.path.dirname(outdir), "sources.py")
        with open(path, "w") as f:
            f.write("class Plain:\n    pass\n")
    return soil.Simulation(name="failing", group="g", model=World, parameters=dict(label={"a": [1, 2]}), matrix={"shift": [0, 1]} if case["matrix"] else {}, iterations=case["iterations"], seed=case["seed"],
                           max_time=case["max_time"], max_steps=40 if case["steps"] else None, model_reporters={"draws": draws}, agent_reporters={"count": count}, outdir=outdir,
                           exporters=[Recorder, *case["exporters"], Last], backup=case["backup"], overwrite=case["overwrite"], dump=case["dump"], source_file=path if case["source"] else None)


def go(case, sim):
    via = case["via"]
    if via == "run":
        return sim.run()
    if via == "replaced":
        return sim.run(max_time=case["max_time"])
    if via == "main":
        was = sys.argv, list(sys.path), logging.getLogger("soil").level
        sys.argv = ["soil", "--level", "CRITICAL", "--output", sim.outdir] + ([] if case["dump"] else ["--no-dump"])
        try:
            return soil.main(sim, exporters=list(sim.exporters))[0]
        finally:
            sys.argv, sys.path[:] = was[:2]
            logging.getLogger("soil").setLevel(was[2])
    d = {k: getattr(sim, k) for k in ("group", "parameters", "matrix", "seed", "max_time", "max_steps", "model_reporters", "agent_reporters", "outdir", "exporters", "backup", "overwrite", "source_file")}
    if via == "model":
        return World.run(name=sim.name, iterations=sim.iterations, dump=sim.dump, **d)
    return S.run(World, iterations=sim.iterations, name=sim.name, dump=sim.dump, **d)


def snapshot(envs):
    out = []
    for m in envs:
        out.append((m.id, m.shift, float(m.now), m.schedule.steps, [(a.unique_id, type(a).__name__, a.n) for a in m.schedule.agents],
                    m.datacollector.get_model_vars_dataframe().to_csv(), m.datacollector.get_agent_vars_dataframe().to_csv()))
    return out


def tables(path):
    """The rows of a database, without the number of the row."""
    out = {}
    with contextlib.closing(sqlite3.connect(path)) as con:
        for (t,) in con.execute("select name from sqlite_master where type='table'").fetchall():
            df = pd.read_sql('select * from "%s"' % t, con)
            cols = sorted(c for c in df.columns if c not in ("index", "outdir"))
            out[t] = sorted(df[cols].to_csv(index=False, header=False).splitlines()), cols
    return out


def files(top):
    """Contents of a directory."""
    out = {}
    for d, _, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            k = os.path.relpath(p, top)
            out[k] = tables(p) if ".sqlite" in f else open(p, "rb").read()
    return out


def process():
    return dict(path=list(sys.path), cwd=os.getcwd(), known=sorted(getattr(Z, "KNOWN_MODULES", ())), avoid=getattr(S, "_AVOID_RUNNING", None), queued=list(getattr(S, "_QUEUED", ())), imported="imported_file" in sys.modules, env=dict(os.environ),
                level=logging.getLogger("soil").level, argv=list(sys.argv))


def contained(old, new, what):
    """Whatever there was is still there, in the same file or in a backup of it."""
    for k, v in old.items():
        kept = [w for (j, w) in new.items() if j == k or os.path.basename(j).startswith(os.path.basename(k) + "@")]
        if isinstance(v, dict):
            ok = any(all(set(rows) <= set(w.get(t, ((), ()))[0]) for (t, (rows, _)) in v.items()) for w in kept)
        else:
            ok = any(v in w for w in kept)
        require(ok, "{}: {} was lost", what, k)


def check(case, obs):
    Fault.armed = Fault.fired = None
    Recorder.events, World.begun = [], []
    d1, d2 = os.path.join(obs.scratch, "ref"), os.path.join(obs.scratch, "out")
    with silent():
        want = snapshot(go(case, build(case, d1)))
    order = [(int(w[0]), w[1]) for w in want]
    same(order, [(i, s) for s in ([0, 1] if case["matrix"] else [0]) for i in range(case["iterations"])], "runs")
    same(Recorder.events, ["start"] + order + ["end"], "calls to an exporter")
    if case["prior"]:
        with silent():
            go(dict(case, via="run"), build(dict(case, seed="p"), d2))
    before = files(d2)
    sim = build(case, d2)
    definition, ident = copy.deepcopy(sim.parameters), sim.id
    yml = sim.to_yaml()
    Recorder.events, World.begun = [], []
    was = process()
    Fault.armed = case
    caught = None
    try:
        with silent():
            got = go(case, sim)
    except (Violation, Runaway):
        raise
    except BaseException as ex:
        caught = ex
    finally:
        fired, Fault.armed, Fault.fired = Fault.fired, None, None
    # (the caller still holds the exception, and so do the frames that it went through)
    now = process()
    for k in was:
        same(now[k], was[k], "%s after the run" % k)
    after = files(d2)
    if not fired:
        require(caught is None, "the run failed: {!r}", caught)
        same(snapshot(got), want, "results")
        obs.tag("no fault")
        return
    what = "%s in %s" % (case["error"], case["place"])
    require(caught is not None, "%s was lost" % what)
    require(type(caught) is type(fired[0]) and caught.args == fired[0].args, "{}: the caller got {!r}", what, caught)
    require(any(caught is f for f in fired), "{}: the caller got another exception {!r}", what, caught)
    if case["cause"] == "from":
        require(isinstance(caught.__cause__, LookupError) and caught.__cause__.args == ("the cause",), "{}: its cause was lost ({!r})", what, caught.__cause__)
    elif case["cause"] == "none":
        require(caught.__cause__ is None, "{}: its cause is {!r}", what, caught.__cause__)
    if len(fired) > 1:
        require(case["error"] == "TypeError", "{}: raised {} times", what, len(fired))
    # what was finished
    where = (case["iteration"], case["shift"])
    if case["place"] == "sim_start":
        done = []
        same(Recorder.events, ["start"], "calls to an exporter")
    elif case["place"] == "sim_end":
        done = order
        same(Recorder.events, ["start"] + order + ["end"], "calls to an exporter")
    else:
        k = order.index(where)
        done = order[:k]
        same(Recorder.events, ["start"] + order[:k + (case["place"] in IN_EXPORT)], "calls to an exporter (%s)" % what)
    same(World.begun, done + ([] if case["place"] in ("sim_start", "sim_end") else [where]), "iterations that began (%s)" % what)
    # definition
    same(sim.parameters, definition, "parameters after the failure")
    same(sim.id, ident, "identifier after the failure")
    if case["via"] != "main":
        same(sim.to_yaml(), yml, "definition after the failure")
    # exported data
    if not case["dump"]:
        same(after, {}, "files without dump")
    else:
        if case["backup"] or not case["overwrite"]:
            contained(before, after, what)
        ref = files(d1)
        full = done + ([where] if case["place"] in ("export", "export_body") else [])
        exported(case, ref, after, before, full, done, what)
    # and the next runs
    Recorder.events, World.begun = [], []
    with silent():
        same(snapshot(go(case, sim)), want, "results of the next run")
        same(snapshot(go(case, build(case, os.path.join(obs.scratch, "next")))), want, "results of another simulation")
    obs.tag(case["place"])
    obs.tag("finished before", bool(done))
    obs.hit()


def anon(text):
    """Simulations have names of their own."""
    return re.sub(r"failing_[0-9.]+", "failing_ID", text)


def exported(case, ref, after, before, full, done, what):
    top = os.path.join("g", "failing")
    names = case["exporters"]
    if "csv" in names:
        for i in range(case["iterations"]):
            for t in ("env", "agents"):
                f = os.path.join(top, "%d.%s.csv" % (i, t))
                new = after.get(f, b"").decode()
                old = before.get(f, b"").decode()
                require(new.startswith(old), "{}: the rows in {} changed", what, f)
                blocks = [s for (j, s) in full if j == i]
                lines = ref[f].decode().splitlines()
                rows = new[len(old):].splitlines()
                wanted = rows_of(lines, blocks, case)
                same([anon(r) for r in (rows[1:] if not old and rows else rows)], [anon(r) for r in wanted], "rows in %s (%s)" % (f, what))
    for i in range(case["iterations"]):
        f = os.path.join(top, "last-%d.txt" % i)
        new, old = after.get(f, b""), before.get(f, b"")
        require(new.startswith(old), "{}: the contents of {} changed", what, f)
        wanted = "".join("begin %d %d\nend\n" % (i, s) for (j, s) in done if j == i)
        if case["place"] == "export_body" and i == case["iteration"]:
            wanted += "begin %d %d\n" % (i, case["shift"])
        same(new[len(old):].decode(), wanted, "contents of %s (%s)" % (f, what))
    if "SQLite" in names or "default" in names:
        f = os.path.join(top, "failing.sqlite")
        if case["place"] == "sim_start":
            return
        got = after[f]
        kept = before.get(f, {}) if not (case["backup"] or case["overwrite"]) else {}
        for t in ("env", "agents", "parameters"):
            new = list(got.get(t, ([], []))[0])
            for r in kept.get(t, ([], []))[0]:
                new.remove(r)
            cols = ref[f][t][1]
            wanted = [r for r in ref[f][t][0] if key(r, cols, t, ref[f]) in full]
            same(sorted(map(anon, new)), sorted(map(anon, wanted)), "rows in table %s (%s)" % (t, what))


def key(row, cols, t, ref):
    """The iteration that a row belongs to."""
    import csv as C
    cells = dict(zip(cols, next(C.reader([row]))))
    pid = cells["params_id"]
    pcols = ref["parameters"][1]
    shift = 0
    for r in ref["parameters"][0]:
        c = dict(zip(pcols, next(C.reader([r]))))
        if c["params_id"] == pid and c["key"] == "shift":
            shift = int(c["value"])
    return int(cells["iteration_id"]), shift


def rows_of(lines, blocks, case):
    """The rows that each combination of parameters added to a file: they begin at the first step again."""
    import csv as C
    head = next(C.reader([lines[0]]))
    pid = head.index("params_id")
    groups = {}
    for l in lines[1:]:
        groups.setdefault(next(C.reader([l]))[pid], []).append(l)
    shifts = [0, 1] if case["matrix"] else [0]
    out = []
    for s, rows in zip(shifts, groups.values()):
        if s in blocks:
            out += rows
    return out


TARGETS = [Target("faults", cases, check, quick=640, rule="the fault went off")]
