"""C28: soil and plain mesa components can be mixed."""
import csv as csvmod, logging, os, sqlite3
from vf.lib import *
from vf.core import Target
import mesa.time as MT

TECHNIQUE = "generated mixtures of mesa and soil models, agents and schedulers: differential against stepping the same model by hand, and against an event-list oracle of the activations"
ASSUMPTIONS = ["soil agents on mesa's own schedulers only rely on being activated once per step (as the documentation says)", "agents of a mesa scheduler do not remove each other during a step"]

# ---- mesa models run by a soil simulation
MSCHED = {"base": MT.BaseScheduler, "random": MT.RandomActivation, "simultaneous": MT.SimultaneousActivation, "staged": MT.StagedActivation, "bytype": MT.RandomActivationByType}


class Money(mesa.Agent):
    def __init__(self, unique_id, model, wealth=1):
        super().__init__(unique_id, model)
        self.wealth = wealth
        self.n = 0

    def step(self):
        self.n += 1
        self.model.trace.append(("step", self.model.schedule.steps, self.unique_id))
        others = list(self.model.schedule.agents)
        other = self.model.random.choice(others)
        if self.wealth > 0:
            other.wealth += 1
            self.wealth -= 1

    def advance(self):
        self.model.trace.append(("advance", self.unique_id))


class Other(Money):
    pass


def build(self, N, sched, stop, collect, alpha):
    self.alpha = alpha
    self.trace = []
    self.schedule = MSCHED[sched](self) if sched in MSCHED else SCHEDULERS()[sched](self)
    for i in range(N):
        self.schedule.add((Other if i % 3 == 2 else Money)(i, self, wealth=1 + self.random.randrange(3)))
    self.stop = stop
    if collect != "none":
        kw = {}
        if collect in ("model", "both"):
            kw["model_reporters"] = {"total": lambda m: sum(a.wealth for a in m.schedule.agents), "alpha": lambda m: repr(m.alpha)}
        if collect in ("agent", "both"):
            kw["agent_reporters"] = {"wealth": "wealth"}
        self.datacollector = mesa.DataCollector(**kw)


class Strict(mesa.Model):
    def __init__(self, N, sched, stop, collect, alpha=0):
        super().__init__()
        build(self, N, sched, stop, collect, alpha)

    def step(self):
        if hasattr(self, "datacollector"):
            self.datacollector.collect(self)
        self.schedule.step()
        if self.stop is not None and self.schedule.steps >= self.stop:
            self.running = False


class Loose(Strict):
    def __init__(self, N, sched, stop, collect, alpha=0, **kwargs):
        super().__init__(N, sched, stop, collect, alpha)
        self.received = kwargs


class Keen(Strict):
    def __init__(self, N, sched, stop, collect, alpha=0, **everything_else):
        super().__init__(N, sched, stop, collect, alpha)
        self.received = everything_else


class Partial(Strict):
    def __init__(self, N, sched, stop, collect, alpha=0, id=None, seed=None, logger=None):
        super().__init__(N, sched, stop, collect, alpha)
        self.id, self.my_seed, self.my_logger = id, seed, logger


class Seeded(Strict):
    """The reference: the same model, given its seed the way mesa does."""

    def __init__(self, N, sched, stop, collect, alpha=0, seed=None):
        super().__init__(N, sched, stop, collect, alpha)


def model_cases():
    return fixed(style=st.sampled_from(["Strict", "Strict", "Loose", "Keen", "Partial"]), N=st.integers(1, 5), sched=st.sampled_from(sorted(MSCHED) + ["timed", "ordered", "pq"]), stop=st.sampled_from([None, None, 1, 3]),
                 collect=st.sampled_from(["none", "model", "agent", "both", "both"]), alpha=st.sampled_from([None, 1, "x"]), matrix=st.sampled_from([None, None, [1, 2]]), max_time=st.sampled_from([None, 2, 3.5, 0]),
                 max_steps=st.sampled_from([None, 0, 1, 4]), iterations=st.integers(1, 3), seed=st.sampled_from(["s", "default", "7"]), dump=st.booleans(),
                 exporters=st.lists(st.sampled_from(["default", "csv", "summary", "dummy"]), max_size=2, unique=True))


def mstate(m):
    dc = getattr(m, "datacollector", None)
    return {"trace": m.trace, "wealth": [(a.unique_id, a.wealth, a.n) for a in m.schedule.agents], "time": m.schedule.time, "steps": m.schedule.steps, "running": m.running, "alpha": m.alpha,
            "data": None if dc is None else (repr(dc.model_vars), repr(dc._agent_records)), "next": m.random.random()}


def check_models(case, obs):
    params = dict(N=case["N"], sched=case["sched"], stop=case["stop"], collect=case["collect"])
    if case["alpha"] is not None:
        params["alpha"] = case["alpha"]
    mt, ms = case["max_time"], case["max_steps"]
    if mt is None and ms is None and case["stop"] is None:
        ms = 2
    kw = {} if not case["matrix"] else {"matrix": {"alpha": list(case["matrix"])}}
    if case["matrix"]:
        params.pop("alpha", None)
    out = os.path.join(obs.scratch, "out")
    with silent():
        res = S.Simulation(model=globals()[case["style"]], name="mesa", parameters=params, max_time=mt, max_steps=ms, iterations=case["iterations"], seed=case["seed"], dump=case["dump"], outdir=out,
                           exporters=list(case["exporters"]), **kw).run()
    combos = [dict(params, alpha=v) for v in case["matrix"]] if case["matrix"] else [params]
    same(len(res), len(combos) * case["iterations"], "models run")
    ix = 0
    for p in combos:
        for i in range(case["iterations"]):
            got = res[ix]
            ix += 1
            with silent():
                m = Seeded(seed="%s_iteration_%d" % (case["seed"], i), **p)
                n = 0
                while m.running and (mt is None or m.schedule.time < mt) and (ms is None or m.schedule.steps < ms):
                    m.step()
                    n += 1
                    if n > 1000:
                        raise Runaway()
            a, b = mstate(got), mstate(m)
            for k in b:
                if a[k] != b[k]:
                    raise Violation("mesa model %s, iteration %d: %s: got %r, expected %r as when stepped by hand" % (case["style"], i, k, a[k], b[k]))
            if case["style"] != "Partial":
                same(got.id, str(i), "identifier of the iteration")
            if case["style"] in ("Loose", "Keen"):
                same(got.received.get("seed"), "%s_iteration_%d" % (case["seed"], i), "seed given to the model")
                same(got.received.get("id"), str(i), "id given to the model")
            if case["style"] == "Partial":
                same((got.id, got.my_seed), (str(i), "%s_iteration_%d" % (case["seed"], i)), "arguments that the model accepts")
    if case["dump"] and "default" in case["exporters"] and case["collect"] in ("model", "both"):
        con = sqlite3.connect(os.path.join(out, "mesa", "mesa.sqlite"))
        rows = con.execute("select iteration_id, total from env").fetchall() if any(m.datacollector.model_vars["total"] for m in res) else []
        con.close()
        want = sorted((str(int(k) % case["iterations"]), t) for k, m in enumerate(res) for t in m.datacollector.model_vars["total"])
        same(sorted((str(r[0]), r[1]) for r in rows), want, "collected data in the database")
        obs.tag("exported")
    obs.tag(case["style"])
    obs.hit(sum(len(m.trace) for m in res) > 3)


# ---- mesa agents in soil models
class Plain(mesa.Agent):
    def __init__(self, unique_id, model, colour="none", **kw):
        super().__init__(unique_id, model)
        self.colour = colour
        self.n = 0
        for k, v in kw.items():
            setattr(self, k, v)

    def step(self):
        self.n += 1
        self.model.trace.append((float(self.model.schedule.time), self.unique_id))
        if self.model.limit is not None and self.n >= self.model.limit:
            self.model.schedule.remove(self)


class Strict2(mesa.Agent):
    """A constructor without any further arguments."""

    def __init__(self, unique_id, model):
        super().__init__(unique_id, model)
        self.colour = "strict"
        self.n = 0

    step = Plain.step


def act(self):
    self.n += 1
    self.model.trace.append((float(self.now), self.unique_id))
    if self.model.limit is not None and self.n >= self.model.limit:
        return self.die()
    return self.wait


class Soil(A.BaseAgent):
    colour = "none"
    wait = 1
    n = 0

    def step(self):
        return act(self)


class Net(A.NetworkAgent):
    colour = "none"
    wait = 1
    n = 0

    def step(self):
        return act(self)


class Machine(A.FSM):
    colour = "none"
    wait = 1
    n = 0

    @A.state(default=True)
    def ping(self):
        r = act(self)
        return self.pong.delay(r) if self.alive else r

    @A.state
    def pong(self):
        r = act(self)
        return self.ping.delay(r) if self.alive else r


KINDS = {"Plain": Plain, "Strict2": Strict2, "Soil": Soil, "Net": Net, "Machine": Machine}
COLOURS = ["red", "blue", "none"]


def agent_cases():
    ag = fixed(kind=st.sampled_from(sorted(KINDS)), colour=st.sampled_from(COLOURS), wait=st.sampled_from([1, 0.5, 2, 3]), how=st.sampled_from(["add", "schedule", "node"]))
    query = fixed(cls=st.sampled_from([None, "Plain", "Soil", "Machine", "mesa", "base"]), colour=st.sampled_from([None, "red", "blue", "strict"]), state=weighted((None, 3), ("ping", 1), ("pong", 1)),
                  ids=weighted((None, 3), ([0, 1], 1), ([3], 1)), limit=st.sampled_from([None, None, 1, 2]))
    return fixed(agents=st.lists(ag, min_size=1, max_size=6), interval=st.sampled_from([None, 2, 0.5, 1]), sched=sched_names, steps=st.integers(1, 6), limit=st.sampled_from([None, None, 1, 3]), queries=st.lists(query, max_size=4),
                 reporters=st.lists(st.sampled_from(["n", "colour", "typed", "state"]), unique=True, max_size=4))


def check_agents(case, obs):
    class World(E.Environment):
        limit = case["limit"]

        def init(self):
            self.trace = []
            self.queries = []
            for i, spec in enumerate(case["agents"]):
                cls = KINDS[spec["kind"]]
                kw = {} if cls is Strict2 else {"colour": spec["colour"]}
                if issubclass(cls, A.BaseAgent):
                    kw["wait"] = spec["wait"]
                if spec["how"] == "schedule":
                    self.schedule.add(cls(unique_id=self.next_id(), model=self, **({"node_id": None} if cls is Net else {}), **kw))
                elif spec["how"] == "node" and cls in (Plain, Strict2, Net):
                    self.G.add_node("n%d" % i)
                    self.add_agent(cls, node_id="n%d" % i, **kw)
                else:
                    self.add_agent(cls, **kw)
            for r in case["reporters"]:
                if r == "typed":
                    self.add_agent_reporter("typed", "n", agent_type=mesa.Agent)
                elif r == "state":
                    self.add_agent_reporter("state_id")
                else:
                    self.add_agent_reporter(r)

    extra = {}
    if case["interval"] is not None:
        World.default_interval = case["interval"]
    with silent():
        m = World(schedule_class=SCHEDULERS()[case["sched"]])
    step = case["interval"] or 1
    # oracle
    ids = [a.unique_id for a in m.schedule.agents]
    same(len(ids), len(case["agents"]), "agents in the model")
    same(len(set(ids)), len(ids), "different ids")
    spec = {u: s for u, s in zip(ids, case["agents"])}
    for u, a in zip(ids, m.schedule.agents):
        require(type(a) is KINDS[spec[u]["kind"]], "agent {} is {!r}", u, a)
        if spec[u]["how"] == "node" and type(a) in (Plain, Strict2, Net):
            i = ids.index(u)
            require(m.G.nodes["n%d" % i]["agent"] is a, "agent of node n{}", i)
    due = {u: 0.0 for u in ids}
    count = {u: 0 for u in ids}
    state = {u: "ping" for u in ids}
    want, t = [], 0.0
    for k in range(case["steps"]):
        if not due:
            break
        require(m.running, "the model stopped before its agents ended")
        t = min(due.values())
        same(float(m.now), t, "time before step %d" % k)
        batch = sorted(u for u in due if due[u] == t)
        for u in batch:
            count[u] += 1
            state[u] = "pong" if state[u] == "ping" else "ping"
            want.append((t, u))
            if case["limit"] is not None and count[u] >= case["limit"]:
                del due[u]
            else:
                plain = not issubclass(KINDS[spec[u]["kind"]], A.BaseAgent)
                due[u] = t + (step if plain else spec[u]["wait"])
        with silent():
            m.step()
        same(sorted(m.trace), sorted(want), "activations after step %d" % k)
        live = [a for a in m.schedule.agents]
        same(sorted(a.unique_id for a in live), sorted(due), "agents left after step %d" % k)
        for q in case["queries"]:
            kw = {}
            if q["cls"]:
                kw["agent_class"] = {"mesa": mesa.Agent, "base": A.BaseAgent}.get(q["cls"]) or KINDS[q["cls"]]
            if q["colour"]:
                kw["colour"] = q["colour"]
            if q["state"]:
                kw["state_id"] = q["state"]
            if q["ids"]:
                kw["unique_id"] = list(q["ids"])
            match = []
            for a in live:
                u = a.unique_id
                col = "strict" if type(a) is Strict2 else spec[u]["colour"]
                if (not q["cls"] or isinstance(a, kw["agent_class"])) and (not q["colour"] or col == q["colour"]) and (not q["state"] or type(a) is Machine and state[u] == q["state"]) and (not q["ids"] or u in q["ids"]):
                    match.append(u)
            if q["limit"]:
                kw["limit"] = q["limit"]
                match = match[:q["limit"]]
            same([a.unique_id for a in m.get_agents(**kw)], match, "search %r" % kw)
            same(m.count_agents(**kw), len(match), "count %r" % kw)
        rec = m.datacollector._agent_records.get(m.schedule.steps) if case["reporters"] else None
        if case["reporters"]:
            names = list(m.datacollector.agent_reporters)
            got = {r[1]: dict(zip(names, r[2:])) for r in rec}
            same(sorted(got), sorted(due), "agents in the collected data")
            for a in live:
                u = a.unique_id
                w = {"n": count[u], "typed": count[u], "colour": "strict" if type(a) is Strict2 else spec[u]["colour"], "state_id": state[u] if type(a) is Machine else None}
                for r in names:
                    same(got[u][r], w[r], "%s of agent %d in the collected data" % (r, u))
    kinds = {issubclass(KINDS[s["kind"]], A.BaseAgent) for s in case["agents"]}
    obs.hit(len(kinds) == 2 and len(want) > 3)


# ---- soil schedulers (and agents) in mesa models
def sched_cases():
    ag = fixed(kind=st.sampled_from(["mesa", "mesa", "soil", "gen", "fsm"]), waits=st.lists(opt_waits, max_size=4), end=st.sampled_from(["dead", "remove", "forever"]), when=st.one_of(st.none(), offsets))
    return fixed(agents=st.lists(ag, min_size=1, max_size=5), sched=sched_names, interval=st.sampled_from([None, None, 2, 0.5]), steps=st.integers(1, 10), log=st.booleans(), runner=st.booleans())


def check_sched(case, obs):
    trace = []
    case = dict(case, agents=[dict(case["agents"][0], when=None)] + case["agents"][1:])   # something happens at the start

    def act(self):
        spec = case["agents"][self.ix]
        trace.append((float(self.model.schedule.time), self.ix))
        self.n = getattr(self, "n", 0) + 1
        if case["log"] and isinstance(self, A.BaseAgent):
            require(float(self.now) == float(self.model.schedule.time), "the agent sees the time {!r}", self.now)
            self.info("active", n=self.n)
        if self.n <= len(spec["waits"]):
            return spec["waits"][self.n - 1]
        if spec["end"] == "forever":
            return None
        if spec["end"] == "remove":
            self.model.schedule.remove(self)
            return 1
        if isinstance(self, A.BaseAgent):
            return self.die()
        raise T.DeadAgent(self.unique_id)

    class Mesa(mesa.Agent):
        def step(self):
            return act(self)

    class Base(A.BaseAgent):
        def step(self):
            return act(self)

    class Gen(A.BaseAgent):
        def step(self):
            while True:
                yield act(self)

    class Fsm(A.FSM):
        @A.state(default=True)
        def only(self):
            return act(self)

    class Model(mesa.Model):
        def __init__(self):
            super().__init__()
            if case["interval"] is not None:
                self.default_interval = case["interval"]
            self.schedule = SCHEDULERS()[case["sched"]](self)
            for ix, spec in enumerate(case["agents"]):
                a = {"mesa": Mesa, "soil": Base, "gen": Gen, "fsm": Fsm}[spec["kind"]](unique_id=self.next_id(), model=self)
                a.ix = ix
                if spec["when"] is None:
                    self.schedule.add(a)
                else:
                    self.schedule.add(a, when=spec["when"])

        def step(self):
            self.schedule.step()

    due = {i: float(s["when"] or 0) for i, s in enumerate(case["agents"])}
    count = {i: 0 for i in due}
    want = []
    bound = 0
    done = 0
    while due and done < case["steps"]:
        t = min(due.values())
        done += 1
        for i in sorted(k for k in due if due[k] == t):
            s = case["agents"][i]
            count[i] += 1
            want.append((t, i))
            w = None
            if count[i] <= len(s["waits"]):
                w = s["waits"][count[i] - 1]
            elif s["end"] != "forever":
                del due[i]
                continue
            due[i] = t + (w if w is not None else (case["interval"] or 1))
    lg = logging.getLogger("soil")
    with silent():
        if case["runner"]:
            m = S.Simulation(model=Model, name="m", max_steps=case["steps"], dump=False, exporters=[]).run()[0]
        else:
            m = Model()
            n = 0
            while m.running and m.schedule.steps < case["steps"]:
                m.step()
                n += 1
                if n > 500:
                    raise Violation("the model never ends")
    same(sorted(trace), sorted(want), "activations")
    same([t for t, _ in trace], sorted(t for t, _ in trace), "activations in order of time")
    same(m.running, bool(due), "running")
    if due:
        same(float(m.schedule.time), min(due.values()), "time at the end")
    # a mesa agent that is never activated again may still belong to the model
    idle = {i for i, s in enumerate(case["agents"]) if s["kind"] == "mesa" and s["end"] == "dead"}
    same(sorted(a.ix for a in m.schedule.agents if a.ix not in idle), sorted(i for i in due if i not in idle), "agents left")
    obs.hit(len(want) > 3 and len({t for t, _ in want}) > 1)


# ---- soil agents on mesa's own schedulers
def vanilla_cases():
    return fixed(kinds=st.lists(st.sampled_from(["base", "fsm", "mesa"]), min_size=1, max_size=4), sched=st.sampled_from(["base", "random"]), steps=st.integers(1, 5), runner=st.booleans(), value=st.integers(0, 3))


def check_vanilla(case, obs):
    seen = []

    def act(self):
        seen.append((self.model.schedule.steps, self.unique_id))
        if isinstance(self, A.BaseAgent):
            same(self.now, self.model.schedule.time, "time seen by the agent")
            self.debug("active")
            self.info("value", v=self["value"])
            self["value"] = self.value + 1

    class Base(A.BaseAgent):
        value = 0

        def step(self):
            act(self)

    class Fsm(A.FSM):
        value = 0

        @A.state(default=True)
        def one(self):
            act(self)
            return self.two

        @A.state
        def two(self):
            act(self)
            return self.one

    class Mesa(mesa.Agent):
        def step(self):
            act(self)

    class Model(mesa.Model):
        def __init__(self):
            super().__init__()
            self.schedule = MSCHED[case["sched"]](self)
            for i, k in enumerate(case["kinds"]):
                cls = {"base": Base, "fsm": Fsm, "mesa": Mesa}[k]
                self.schedule.add(cls(i, self) if cls is Mesa else cls(unique_id=i, model=self, value=case["value"]))

        def step(self):
            self.schedule.step()

    with silent():
        if case["runner"]:
            m = S.Simulation(model=Model, name="m", max_steps=case["steps"], dump=False, exporters=[]).run()[0]
        else:
            m = Model()
            for _ in range(case["steps"]):
                m.step()
    same(sorted(seen), [(s, u) for s in range(case["steps"]) for u in range(len(case["kinds"]))], "activations")
    for a in m.schedule.agents:
        if isinstance(a, A.BaseAgent):
            same(a.value, case["value"] + case["steps"], "state of agent %d" % a.unique_id)
        if isinstance(a, A.FSM):
            same(a.state_id, ["one", "two"][case["steps"] % 2], "state of agent %d" % a.unique_id)
    obs.hit(len(seen) > 2 and len(set(case["kinds"])) > 1)


TARGETS = [Target("models", model_cases, check_models, quick=400, rule="more than three agent activations"),
           Target("agents", agent_cases, check_agents, quick=800, rule="soil and mesa agents share the model and there are more than three activations"),
           Target("schedulers", sched_cases, check_sched, quick=1200, rule="more than three activations at several instants"),
           Target("vanilla", vanilla_cases, check_vanilla, quick=200, rule="agents of several kinds")]
