"""C14: collected data equals what really happened.

The harness steps the model itself and writes down, after every step, what each agent and the model look like;
the data frames must say the same."""
import math
from vf.lib import *
from vf.core import Target
from soil.decorators import report

TECHNIQUE = "generated populations, lifetimes and reporters; the data frames compared with an independent log of every step"
ASSUMPTIONS = ["reporters are declared before the first collection"]

vals = st.one_of(st.integers(-5, 5), st.sampled_from(["a", "", "b'\"\n", None, True, 1.5]))
agent = fixed(cls=st.sampled_from(["P", "P", "Q", "F", "M"]), x=vals, waits=st.lists(st.one_of(pool_waits, pool_waits, st.sampled_from([1 / 3, 0.1, 1e-7, 1 + 1e-9, 123456.789])), min_size=1, max_size=3), life=st.one_of(st.none(), st.integers(1, 3)),
              rests=weighted((False, 3), (True, 1)), spawn=st.one_of(st.none(), st.integers(1, 3)), values=st.lists(vals, max_size=4))
arep = st.sampled_from(["attr:x", "attr:missing", "attr:n", "func", "typed_attr:P", "typed_func:Q", "typed_func:M", "typed_attr:F", "add_name:x", "add_name:missing", "add_name:extra", "attr:extra", "typed_attr:Q:extra", "typed_attr:P:missing", "add_func", "add_attr", "state"])
mrep = st.sampled_from(["own_count", "own_count_later", "attr:counter", "func", "add_name:counter", "add_func", "list", "missing_none", "add_attr"])


def cases():
    return fixed(agents=st.lists(agent, min_size=1, max_size=4), areps=st.lists(arep, min_size=1, max_size=5, unique=True), mreps=st.lists(mrep, max_size=4, unique=True),
                 deco=st.sampled_from(["none", "method", "property", "both", "inherited"]), sched=sched_names, steps=st.integers(0, 7), how=st.sampled_from(["hand", "sim", "params"]),
                 interval=st.sampled_from([None, 0.5]), collector=st.sampled_from([None, None, "param", "class"]))


class Collector(soil.SoilCollector):
    """One of the user's own, with a count of its own."""
    times = 0

    def collect(self, model):
        self.times += 1
        super().collect(model)


class Life:
    def setup(self, spec):
        self.spec, self.n, self.x = spec, 0, spec["x"]
        if spec["life"]:
            self.extra = spec["life"]         # which others do not have

    def live(self):
        sp = self.spec
        self.n += 1
        self.model.counter += 1
        if self.n - 1 < len(sp["values"]):
            self.x = sp["values"][self.n - 1]
        if sp["spawn"] == self.n and self.model.schedule.get_agent_count() < 8:
            self.model.put(dict(sp, spawn=None))
        if sp["life"] == self.n:
            return INF if sp.get("rests") else None
        return sp["waits"][(self.n - 1) % len(sp["waits"])]


class P(Life, A.BaseAgent):
    def step(self):
        w = self.live()
        return self.die() if w is None else w


class Q(P):
    pass


class F(Life, A.FSM):
    @A.default_state
    @A.state
    def one(self):
        w = self.live()
        return self.die() if w is None else self.two.delay(w)

    @A.state
    def two(self):
        w = self.live()
        return self.die() if w is None else self.one.delay(w)


class M(Life, mesa.Agent):
    def step(self):
        if self.live() is None:
            self.model.schedule.remove(self)


CLS = {"P": P, "Q": Q, "F": F, "M": M}


def state(a):
    return getattr(a, "state_id", None)


def world(deco):
    class World(E.Environment):
        def init(self):
            self.counter = 0
            self.missing, self.extra = "of the model", "of the model"
            for sp in self.specs:
                self.put(sp)
            for name, args in self.later_m:
                self.add_model_reporter(name, *args)
            for name, args, kw in self.later_a:
                self.add_agent_reporter(name, *args, **kw)

        def put(self, sp):
            a = self.add_agent(CLS[sp["cls"]])
            a.setup(sp)

    if deco in ("method", "both", "inherited"):
        World.doubled = report(lambda self: self.counter * 2)
    if deco in ("property", "both", "inherited"):
        def half(self):
            return self.counter / 2
        World.half = report(property(half))
    if deco == "inherited":
        class Derived(World):
            def doubled(self):
                return self.counter * 3
            doubled = report(doubled)
        return Derived
    return World


def clean(v):
    if v is None or isinstance(v, float) and math.isnan(v):
        return None
    if hasattr(v, "item"):
        v = v.item()
    if isinstance(v, float) and v.is_integer():
        return int(v)
    return v


def check(case, obs):
    cls = world(case["deco"])
    areps, mreps, later_a, later_m = {}, {}, [], []
    aval, mval = {}, {}
    own = False           # the user's own count of agents
    for i, r in enumerate(case["areps"]):
        kind, _, arg = r.partition(":")
        name = "a%d" % i
        if kind == "attr":
            areps[name], aval[name] = arg, (lambda a, k=arg: getattr(a, k, None))
        elif kind == "func":
            areps[name] = aval[name] = lambda a: [a.n, a.unique_id]
        elif kind == "state":
            areps[name] = aval[name] = state
        elif kind == "typed_attr":
            arg, _, k = arg.partition(":")
            k = k or "x"
            later_a.append((name, [k], {"agent_type": CLS[arg]}))
            aval[name] = lambda a, c=CLS[arg], k=k: getattr(a, k, None) if isinstance(a, c) else None
        elif kind == "typed_func":
            later_a.append((name, [lambda a: a.n * 10], {"agent_type": CLS[arg]}))
            aval[name] = lambda a, c=CLS[arg]: a.n * 10 if isinstance(a, c) else None
        elif kind == "add_name":
            later_a.append((arg, [], {}))
            aval[arg] = lambda a, k=arg: getattr(a, k, None)
        elif kind == "add_func":
            later_a.append((name, [lambda a: -a.n], {}))
            aval[name] = lambda a: -a.n
        elif kind == "add_attr":
            later_a.append((name, ["n"], {}))
            aval[name] = lambda a: a.n
    for i, r in enumerate(case["mreps"]):
        kind, _, arg = r.partition(":")
        name = "m%d" % i
        if kind == "attr":
            mreps[name], mval[name] = arg, (lambda m: m.counter)
        elif kind == "func":
            mreps[name] = mval[name] = lambda m: sum(a.n for a in m.schedule.agents)
        elif kind == "add_name":
            later_m.append((arg, []))
            mval[arg] = lambda m: m.counter
        elif kind == "add_func":
            later_m.append((name, [lambda m: m.counter + 1]))
            mval[name] = lambda m: m.counter + 1
        elif kind == "add_attr":
            later_m.append((name, ["counter"]))
            mval[name] = lambda m: m.counter
        elif kind == "list":
            f = lambda k: k + 1
            mreps[name], mval[name] = [f, [41]], (lambda m: 42)
        elif kind == "own_count":
            mreps["agent_count"], own = (lambda m: m.counter - 7), True
        elif kind == "own_count_later":
            later_m.append(("agent_count", [lambda m: m.counter - 7]))
            own = True
        elif kind == "missing_none":
            mreps[name] = mval[name] = lambda m: None if m.counter % 2 else m.counter
    if case["deco"] in ("method", "both"):
        mval["doubled"] = lambda m: m.counter * 2
    if case["deco"] == "inherited":
        mval["doubled"] = lambda m: m.counter * 3
    if case["deco"] in ("property", "both", "inherited"):
        mval["half"] = lambda m: m.counter / 2
    mval["agent_count"] = lambda m: m.counter - 7 if own else len(m.schedule.agents)
    mval["time"] = lambda m: float(m.now)

    modellog, agentlog = [], []

    def note(m):
        s = len(modellog)
        modellog.append({k: clean(f(m)) for k, f in mval.items()})
        for a in m.schedule.agents:
            agentlog.append((s, clean(float(m.now)), a.unique_id, {k: clean(f(a)) for k, f in aval.items()}))

    base = dict(specs=case["agents"], later_a=later_a, later_m=later_m, schedule_class=SCHEDULERS()[case["sched"]])
    if case["interval"]:
        cls.default_interval = case["interval"]
    if case["collector"] == "param":
        base["collector_class"] = Collector
    elif case["collector"] == "class":
        cls.collector_class = Collector
    if case["how"] == "hand":
        m = cls(model_reporters=mreps, agent_reporters=areps, **base)
        note(m)
        for _ in range(case["steps"]):
            if not m.running:
                break
            m.step()
            note(m)
    else:
        def init(self):
            super(Noting, self).init()
            note(self)

        def step(self):
            super(Noting, self).step()
            note(self)
        Noting = type("Noting", (cls,), {"init": init, "step": step})
        kw = dict(parameters=base)
        if case["how"] == "sim":
            kw.update(model_reporters=mreps, agent_reporters=areps)
        else:
            base.update(model_reporters=mreps, agent_reporters=areps)
        with silent():
            m, = S.Simulation(model=Noting, max_steps=case["steps"], dump=False, exporters=[], name="d", **kw).run()

    if case["collector"]:
        require(isinstance(m.datacollector, Collector), "the collector is a {!r}", type(m.datacollector))
        same(m.datacollector.times, len(modellog), "collections")
    mdf = m.model_df(steps=True)
    same(sorted(mdf.columns), sorted(mval), "model reporters")
    same([int(i) for i in mdf.index], list(range(len(modellog))), "steps in the model data")
    for s, (row, want) in enumerate(zip(mdf.to_dict("records"), modellog)):
        same({k: clean(v) for k, v in row.items()}, want, "model data at step %d" % s)
    tdf = m.model_df()
    same([clean(t) for t in tdf.index], [clean(r["time"]) for r in modellog], "times in the model data")
    same(sorted(tdf.columns), sorted((set(mval) | {"step"}) - {"time"}), "columns of the model data by time")
    for s, (row, want) in enumerate(zip(tdf.to_dict("records"), modellog)):
        same({k: clean(v) for k, v in row.items()}, {**{k: v for k, v in want.items() if k != "time"}, "step": s}, "model data by time at step %d" % s)
    adf = m.agent_df(steps=True)
    same(sorted(adf.columns), sorted(aval), "agent reporters")
    rec = lambda df: [(clean(i[0]), i[1], {k: clean(v) for k, v in r.items()}) for i, r in zip(df.index, df.to_dict("records"))]
    order = lambda rows: sorted(rows, key=lambda r: (r[0], r[1]))
    diff(order(rec(adf)), order([(s, uid, r) for s, t, uid, r in agentlog]), "agent data by step")
    same(list(adf.index.names), ["step", "agent_id"], "index of the agent data")
    bytime = m.agent_df()
    same(list(bytime.index.names), ["time", "agent_id"], "index of the agent data by time")
    same(sorted(bytime.columns), sorted(aval), "agent reporters by time")
    key = lambda r: (r[0], r[1], repr(sorted(r[2].items())))
    diff(sorted(rec(bytime), key=key), sorted([(t, uid, r) for s, t, uid, r in agentlog], key=key), "agent data by time")
    # asking twice gives the same
    diff(order(rec(m.agent_df(steps=True))), order([(s, uid, r) for s, t, uid, r in agentlog]), "agent data by step, asked again")
    sizes = {sum(r[0] == s for r in agentlog) for s in range(len(modellog))}
    obs.tag("own count", int(own))
    obs.tag("population_changes", int(len(sizes) > 1))
    obs.tag("irregular", int(len({b["time"] - a["time"] for a, b in zip(modellog[1:], modellog[2:])}) > 1))
    obs.hit(len(modellog) > 2 and len(agentlog) > 2)


def diff(got, want, what):
    for g, w in zip(got, want):
        if g[:2] != w[:2] or repr(sorted(g[2].items())) != repr(sorted(w[2].items())):
            raise Violation("%s: got %r, expected %r" % (what, g, w))
    same(len(got), len(want), what + ": number of rows")


TARGETS = [Target("frames", cases, check, quick=1600, rule="at least three recorded steps and three agent rows")]
