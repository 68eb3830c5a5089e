"""C27: logging never changes the results; messages are emitted according to the level."""
import itertools, logging, os
from vf.lib import *
from vf.core import Target

TECHNIQUE = "generated populations that log generated messages, run at every level: trajectories and data compared with a silent run, emitted records compared with the messages at or above the level"
ASSUMPTIONS = ["levels are given to the simulation (or to the model through its logger); simulations that run at the same time do not share a name"]

LEVELS = [1, 10, 15, 20, 25, 30, 40, 50, 60]
text = st.sampled_from(["hello", "", "100%", "%s", "%d %(x)s", "{x}", "{}", "two\nlines", "ñ€", "a=b", "\\", "'q'", "%", "[@0]"])
val = st.one_of(st.integers(-3, 10), st.sampled_from([0.5, None, True, [1, 2], {"k": "v"}, "x y", "%", "{z}", [], "ñ"]))
KW = ["a", "value", "now", "name", "msg", "args", "agent", "unique_id", "id", "exc", "self_", "extra_", "message_", "k%"]
say = fixed(who=st.sampled_from(["agent", "agent", "model", "debug", "info", "plain"]), level=st.sampled_from(LEVELS), text=st.lists(text, min_size=1, max_size=3), more=st.lists(val, max_size=2),
            kw=st.dictionaries(st.sampled_from(KW), val, max_size=2))
script = st.lists(st.lists(say, max_size=2), min_size=1, max_size=4)
agent = fixed(kind=st.sampled_from(["base", "net", "fsm", "evented", "gen", "mesa"]), script=script, name=st.sampled_from([None, "bob", "a.b", "with space"]), wait=st.sampled_from([1, 0.5, 2]))
reports = st.lists(st.tuples(st.sampled_from(["m", "long name", "ñ", "%s", "{x}"]), val).map(list), max_size=3)


def cases():
    return fixed(agents=st.lists(agent, min_size=1, max_size=4), levels=st.lists(st.sampled_from(LEVELS), min_size=1, max_size=3, unique=True), reports=reports, areports=reports,
                 steps=st.integers(1, 4), iterations=st.integers(1, 2), collector=weighted((None, 6), ("mesa", 1)), direct=weighted((False, 4), (True, 1)), init=st.lists(say, max_size=2), tell=st.booleans(),
                 dump=weighted((False, 5), (True, 1)))


class Catch(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.records, self.errors = [], []
        self.setFormatter(logging.Formatter("[%(levelname)s][%(name)s] %(message)s"))

    def emit(self, record):
        try:
            self.format(record)
            self.records.append((record.levelno, record.getMessage()))
        except Exception as ex:
            self.errors.append(repr(ex))


SERIAL = itertools.count()


def speak(source, s, token, spoken):
    """Logs one message; the expectations go to `spoken`."""
    kw = dict(s["kw"])
    level = {"debug": 10, "info": 20}.get(s["who"], s["level"])
    parts = [token] + s["text"] + list(s["more"])
    spoken.append((level, token, [str(p) for p in parts], ["%s=%s" % (k, v) for k, v in kw.items()]))
    if s["who"] == "model" or not isinstance(source, A.BaseAgent):
        m = source if not hasattr(source, "model") else source.model
        m.log(token + s["text"][0], *(s["text"][1:] + list(s["more"])), level=level, **kw)
    elif s["who"] == "debug":
        source.debug(*parts, **kw)
    elif s["who"] == "info":
        source.info(*parts, **kw)
    elif s["who"] == "plain" and level == 20:
        source.log(*parts, **kw)
    else:
        source.log(*parts, level=level, **kw)


def make(case, trace, spoken):
    def act(self):
        self.n = getattr(self, "n", 0) + 1
        trace.append((self.model.id, float(self.model.schedule.time), self.unique_id, self.n, round(self.model.random.random(), 9)))
        spec = case["agents"][self.ix]
        if self.n <= len(spec["script"]):
            for j, s in enumerate(spec["script"][self.n - 1]):
                speak(self, s, "<<%s.%d.%d.%d>>" % (self.model.id, self.ix, self.n, j), spoken)
        return spec["wait"]

    class Base(A.BaseAgent):
        def step(self):
            return act(self)

    class Net(A.NetworkAgent):
        def step(self):
            return act(self)

    class Fsm(A.FSM):
        @A.state(default=True)
        def one(self):
            return self.two.delay(act(self))

        @A.state
        def two(self):
            return self.one.delay(act(self))

    class Ev(A.EventedAgent):
        def step(self):
            self.process_messages()
            return act(self)

        def on_receive(self, msg, sender=None):
            trace.append(("msg", self.unique_id, str(msg)))

    class Gen(A.BaseAgent):
        def step(self):
            while True:
                yield act(self)

    class Plain(mesa.Agent):
        def step(self):
            act(self)

    kinds = dict(base=Base, net=Net, fsm=Fsm, evented=Ev, gen=Gen, mesa=Plain)

    class World(E.Environment):
        def init(self):
            for j, s in enumerate(case["init"]):
                speak(self, s, "<<%s.init.%d>>" % (self.id, j), spoken)
            for ix, spec in enumerate(case["agents"]):
                cls = kinds[spec["kind"]]
                if cls is Plain:
                    a = Plain(self.next_id(), self)
                    a.ix = ix
                    self.schedule.add(a)
                else:
                    kw = {} if spec["name"] is None else {"name": spec["name"] + str(ix)}
                    self.add_agent(cls, ix=ix, **kw)

        def step(self):
            if case["tell"]:
                self.broadcast("hello %d" % self.schedule.steps)
            super().step()

    return World


def freeze(x):
    return repr(x)


def one_run(case, level, scratch):
    trace, spoken = [], []
    cls = make(case, trace, spoken)
    n = next(SERIAL)
    reporters = {k: (lambda m, v=v: v) for k, v in case["reports"]}
    areporters = {k: (lambda a, v=v: v) for k, v in case["areports"]}
    extra = {}
    if case["collector"]:
        extra["collector_class"] = mesa.DataCollector
    soil_logger = logging.getLogger("soil")
    old = soil_logger.level, soil_logger.propagate
    h = Catch()
    soil_logger.addHandler(h)
    soil_logger.propagate = False
    try:
        with silent():
            if case["direct"]:
                lg = logging.getLogger("soil.direct%d" % n)
                lg.setLevel(level)
                m = cls(id="0", seed="s", logger=lg, model_reporters=reporters, agent_reporters=areporters, **extra)
                for _ in range(case["steps"]):
                    m.step()
                res = [m]
            else:
                sim = S.Simulation(model=cls, name="log%d" % n, level=level, seed="s", max_steps=case["steps"], iterations=case["iterations"], dump=case["dump"], outdir=os.path.join(scratch, "o%d" % n),
                                   exporters=["summary", "csv"] if case["dump"] else [], model_reporters=reporters, agent_reporters=areporters, parameters=extra)
                res = sim.run()
        enabled_outer = soil_logger.isEnabledFor(level)
    finally:
        soil_logger.removeHandler(h)
        soil_logger.setLevel(old[0])
        soil_logger.propagate = old[1]
    data = []
    for m in res:
        dc = m.datacollector
        data.append((sorted(m.keys()), freeze(dc.model_vars), freeze(sorted(dc._agent_records.items())), float(m.now), m.schedule.steps, m.random.random()))
    return trace, data, spoken, h


def check(case, obs):
    quiet = one_run(case, 100, obs.scratch)
    require(not any(t[1].startswith("<<") for t in quiet[3].records), "messages at a level above all of them")
    emitted = 0
    for level in case["levels"]:
        trace, data, spoken, h = one_run(case, level, obs.scratch)
        if h.errors:
            raise Violation("level %d: a record cannot be formatted: %r" % (level, h.errors[0]))
        same(trace, quiet[0], "level %d: activations" % level)
        same(data, quiet[1], "level %d: collected data" % level)
        same([s[:2] for s in spoken], [s[:2] for s in quiet[2]], "level %d: messages" % level)
        want = [s for s in spoken if s[0] >= level]
        got = [r for r in h.records if "<<" in r[1]]
        same([(l, m[m.index("<<"):m.index(">>") + 2]) for l, m in got], [(s[0], s[1]) for s in want], "level %d: messages emitted" % level)
        for (l, m), s in zip(got, want):
            for piece in s[2] + s[3]:
                require(piece in m, "level {}: the message {!r} does not contain {!r}", level, m, piece)
        for l, m in h.records:
            require(l >= level or "<<" not in m, "level {}: a record of level {}", level, l)
        emitted += len(want)
        obs.tag("level%d" % level)
    obs.hit(emitted > 1)


# ---- building agents from dictionaries with unknown values only complains in the log
def dict_cases():
    return fixed(extra=st.dictionaries(st.sampled_from(["foo", "bar", "baz"]), val, max_size=2), name=st.sampled_from([None, "bob"]), warn=st.sampled_from([None, True, False]), level=st.sampled_from(LEVELS))


class Plain(A.BaseAgent):
    pass


class Empty(E.Environment):
    pass


def check_dict(case, obs):
    m = Empty()
    attrs = dict(case["extra"], unique_id=7)
    if case["name"]:
        attrs["name"] = case["name"]
    lg = logging.getLogger("soil")
    old = lg.level
    h = Catch()
    lg.addHandler(h)
    try:
        lg.setLevel(case["level"])
        with silent():
            a = Plain.from_dict(m, dict(attrs), **({} if case["warn"] is None else {"warn_extra": case["warn"]}))
    finally:
        lg.setLevel(old)
        lg.removeHandler(h)
    same(a.unique_id, 7, "unique_id")
    same(a.name, case["name"] or "Plain[7]", "name")
    complains = bool(case["extra"]) and case["warn"] is not False and case["level"] <= 20
    same(any(all(k in msg for k in case["extra"]) for _, msg in h.records) and bool(h.records), complains, "the unknown values are reported in the log")
    obs.hit(bool(case["extra"]))


TARGETS = [Target("levels", cases, check, quick=500, rule="at least two messages are at or above the chosen level"),
           Target("from_dict", dict_cases, check_dict, quick=60, rule="some value is unknown to the class")]
