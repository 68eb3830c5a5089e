BUGS = []
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug("state-delay-default", "C05", [("soil/agents/fsm.py", "    def delay(self, delta=0):", "    def delay(self, delta=1):")],
    "a transition written as self.other.delay(), without an amount, in a model whose default interval is not 1",
    "the agent waits one time unit instead of the default interval of its model",
    """
class Ag(A.FSM):
    def init(self):
        self.seen = []

    @A.default_state
    @A.state
    def one(self):
        self.seen.append(self.now)
        return self.two.delay()

    @A.state
    def two(self):
        self.seen.append(self.now)
        return self.one

class M(E.BaseEnvironment):
    default_interval = 0.5
    def init(self):
        self.add_agent(Ag)

m = M()
for i in range(5):
    m.step()
a, = m.schedule.agents
assert a.seen[:4] == [0, 0.5, 1, 1.5], a.seen
""")

bug("far-buckets-last", "C01", [("soil/time.py", "            if l[0] > when:\n", "            if l[0] > when and ix < 32:\n")],
    "more than thirty-two different pending instants, and an agent scheduled in between the last ones",
    "the agent is put at the end of the queue, so it is activated late and time goes backwards",
    """
class Ag(A.BaseAgent):
    def step(self):
        self.model.seen.append((self.now, self.due))
        return float("inf")

m = E.BaseEnvironment(seen=[])
order = [i / 4 for i in range(0, 200)]
order = order[::2] + order[1::2]
for w in order:
    a = Ag(unique_id=m.next_id(), model=m, due=w)
    m.schedule.add(a, when=w)
for _ in range(500):
    if m.running:
        m.step()
assert m.seen == [(w, w) for w in sorted(order)], m.seen[:60]
""")

bug("reached-time-only-after-step", "C02", [("soil/simulation.py", "(not model.running) or (model.schedule.time >= max_time) or (model.schedule.steps >= max_steps)",
                                          "(not model.running) or (model.schedule.time > max_time) or (model.schedule.steps >= max_steps)")],
    "both limits are given and some activation falls exactly on max_time",
    "agents are activated at the instant of the limit, which should not be simulated",
    """
class Ag(A.BaseAgent):
    def step(self):
        self.model.seen.append(self.now)

class M(E.BaseEnvironment):
    def init(self):
        self.seen = []
        self.add_agent(Ag)

a = S.Simulation(model=M, exporters=[], max_time=3).run()[0]
b = S.Simulation(model=M, exporters=[], max_time=3, max_steps=100).run()[0]
assert a.seen == b.seen == [0, 1, 2], (a.seen, b.seen)
""")

bug("several-classes-by-name", "C06", [("soil/agents/__init__.py", "            agent_class = tuple(agent_class)\n", "            agent_class = tuple(c for c in agent_class if c is not BaseAgent) if len(agent_class) > 2 else tuple(agent_class)\n")],
    "a search by a list of three or more classes, one of which is BaseAgent",
    "agents that only match the base class are left out",
    """
class X(A.BaseAgent):
    def step(self):
        pass

class Y(A.BaseAgent):
    def step(self):
        pass

class Z(A.BaseAgent):
    def step(self):
        pass

m = E.BaseEnvironment()
for c in (X, Y, Z):
    m.add_agent(c)
assert len(m.get_agents(agent_class=[X, Y, A.BaseAgent])) == 3
""")

bug("inbox-emptied-by-timeout", "C10", [("soil/agents/evented.py", "        while self.now < expiration:\n            if self._inbox:", "        while self.now < expiration or self._inbox.clear():\n            if self._inbox:")],
    "a message that arrives between the last check and the timeout of received()",
    "the message is lost: it should be there for the next call",
    """
from soil.events import TimedOut

class R(A.EventedAgent):
    got = None
    async def step(self):
        try:
            await self.received(timeout=2, delay=3)
        except TimedOut:
            pass
        try:
            msgs = await self.received(timeout=5)
        except TimedOut:
            msgs = []
        self.got = [m.payload for m in msgs]
        return float("inf")

class W(A.BaseAgent):
    def step(self):
        if self.now == 2:
            self.model.r.tell("hello")

class M(E.Environment):
    def init(self):
        self.r = self.add_agent(R)
        self.add_agent(W)

m = S.Simulation(model=M, exporters=[], max_time=12).run()[0]
assert m.r.got == ["hello"], m.r.got
""")

bug("params-id-short", "C13", [("soil/simulation.py", "            params_id = sha.hexdigest()[:7]", "            params_id = sha.hexdigest()[:2]")],
    "a matrix with several dozens of combinations",
    "different combinations of parameters get the same identifier",
    """
class Ag(A.BaseAgent):
    def step(self):
        pass

class M(E.BaseEnvironment):
    def init(self):
        self.add_agent(Ag)

ids = set()
from soil.exporters import Exporter
class Ex(Exporter):
    def iteration_end(self, env, params, params_id):
        ids.add(params_id)
S.Simulation(model=M, exporters=[Ex], max_steps=1, matrix={"a": list(range(12)), "b": list(range(8))}).run()
assert len(ids) == 96, len(ids)
""")

bug("simulation-id-in-seconds", "C15", [("soil/simulation.py", "            self.id = f\"{self.name}_{current_time()}\"", "            self.id = f\"{self.name}_{int(current_time())}\"")],
    "two simulations with the same name, saved in the same database within a second",
    "they share an identifier, so that their records cannot be told apart",
    """
from soil import analysis
class Ag(A.BaseAgent):
    def step(self):
        pass

class M(E.BaseEnvironment):
    def init(self):
        self.add_agent(Ag)

for i in range(4):
    S.Simulation(model=M, name="same", exporters=["SQLite"], dump=True, outdir="out", max_steps=1, parameters={"v": i}).run()
r = analysis.read_sql("out/same/same.sqlite")
assert len(set(r.config.index)) == 4, list(r.config.index)
""")

bug("lists-without-classes-kept", "C18", [("soil/serialization.py", "        elif isinstance(v, list):\n            d[k] = serialize_list(v, known_modules=known_modules)", "        elif isinstance(v, list) and not all(isinstance(i, dict) for i in v):\n            d[k] = serialize_list(v, known_modules=known_modules)")],
    "a parameter that is a list of dictionaries, with classes inside",
    "the classes are not written as names in the saved configuration",
    """
class Ag(A.BaseAgent):
    pass

s = S.Simulation(model="soil.Environment", parameters={"agents": [{"agent_class": A.CounterModel, "weight": 1}]})
d = s.to_dict()
assert isinstance(d["parameters"]["agents"][0]["agent_class"], str), d["parameters"]
""")

bug("text-types-as-they-are", "C19", [("soil/serialization.py", "    if type_ != \"str\":\n        return repr", "    if type_ not in (\"str\", \"bytes\"):\n        return repr")],
    "serializing a value of type bytes",
    "the result is not text, and it cannot be deserialized",
    """
from soil import serialization as Z
for v in (b"", b"abc", b"\\x00\\xff'"):
    text, t = Z.serialize(v)
    assert isinstance(text, str), text
    assert Z.deserialize(t, text) == v
""")

bug("blank-sample-dropped", "C20", [("soil/serialization.py", "    blank_str = template.render({k: 0 for k in params[0].keys()})", "    blank_str = template.render(params.pop() if len(params) > 64 else params[0])")],
    "a template that is expanded to more than sixty-four configurations",
    "one of the configurations is missing",
    """
from soil import serialization as Z
conf = {"template": "group: g\\nparameters:\\n  x: {{ x }}\\n  y: {{ y }}\\n", "vars": {"bounds": {"x": [0, 1]}, "lists": {"y": [1, 2, 3]}}, "sampler": {"method": "SALib.sample.latin.sample", "N": 40}}
n = len(list(Z.expand_template(conf)))
assert n == 3 * 40, n
""")

bug("extension-after-first-dot", "C21", [("soil/network.py", "    extension = os.path.splitext(path)[1][1:]", "    extension = path.split(\".\", 1)[-1]")],
    "a topology file with another dot in its path",
    "the format is not recognized and the model cannot be created",
    """
import networkx as nx
os.makedirs("v1.2")
nx.write_graphml(nx.path_graph(3), "v1.2/net.graphml")
try:
    m = soil.Environment(topology="v1.2/net.graphml")
except AttributeError as ex:
    assert False, ex
assert len(m.G) == 3
""")

bug("shared-default-sets", "C22", [("soil/agents/__init__.py", "                setattr(self, k, deepcopy(v))", "                setattr(self, k, deepcopy(v) if isinstance(v, (list, dict)) else v)")],
    "a default value that is mutable, but neither a list nor a dictionary",
    "all the agents share the same object",
    """
class Ag(A.BaseAgent):
    friends = {1}
    def step(self):
        pass

m = E.BaseEnvironment()
a, b = m.add_agent(Ag), m.add_agent(Ag)
a.friends.add(2)
assert b.friends == {1}, b.friends
""")

bug("queued-backwards", "C25", [("soil/simulation.py", "        (cls, params) = _QUEUED.pop(0)", "        (cls, params) = _QUEUED.pop()")],
    "a file that runs several simulations",
    "they are loaded in the opposite order",
    """
import textwrap
with open("prog.py", "w") as f:
    f.write(textwrap.dedent('''
import soil
class Ag(soil.agents.BaseAgent):
    def step(self):
        pass
class M(soil.Environment):
    def init(self):
        self.add_agent(Ag)
for i in range(3):
    soil.Simulation(model=M, name="s%d" % i, max_steps=1).run()
'''))
names = [s.name for s in S.from_file("prog.py")]
assert names == ["s0", "s1", "s2"], names
""")

bug("imitation-capped", "C30", [("soil/agents/BassModel.py", "            if self.prob((self.imitation_prob * num_neighbors_aware)):", "            if self.prob(min(self.imitation_prob * num_neighbors_aware, 0.95)):")],
    "an imitation probability that, with several aware neighbours, reaches one",
    "agents that should certainly become aware sometimes do not",
    """
import networkx as nx
g = nx.star_graph(200)
class M(soil.Environment):
    def init(self):
        for n in list(self.G.nodes):
            self.add_agent(A.BassModel, node_id=n, innovation_prob=0, imitation_prob=1, **({"state_id": "aware"} if n == 0 else {}))
m = M(topology=g, seed="x")
m.step()
n = m.count_agents(state_id="aware")
assert n == 201, n
""")

bug("none-is-missing", "C31", [("soil/environment.py", "        return self[key] if key in self else default", "        value = getattr(self, key, default)\n        return default if value is None else value")],
    "an attribute of the model whose value is None, and a default",
    "get returns the default although the item exists",
    """
m = soil.Environment(limit=None)
assert "limit" in m and m["limit"] is None
assert m.get("limit", 5) is None, m.get("limit", 5)
assert m.get("other", 5) == 5
""")

bug("message-needs-links", "C32", [("soil/environment.py", "            if agent == sender:\n                continue", "            if agent == sender or (sender is not None and getattr(agent, \"alive\", True) and getattr(agent, \"node_id\", 0) == getattr(sender, \"unique_id\", None)):\n                continue")],
    "a broadcast by an agent whose id is the node of another agent (they differ once agents have died)",
    "the other agent does not get the message",
    """
class Ag(A.Agent):
    def init(self):
        self.got = []
    def on_receive(self, msg, sender=None):
        self.got.append(msg)
    @A.default_state
    @A.state
    def idle(self):
        self.process_messages()

import networkx as nx
m = soil.Environment(topology=nx.complete_graph(3))
a = m.add_agent(Ag, node_id=2)
b = m.add_agent(Ag, node_id=0)
m.broadcast("hi", sender=a)
b.process_messages()
assert b.got == ["hi"], b.got
""")

bug("pairs-not-shuffled", "C33", [("soil/time.py", "            self.model.random.shuffle(bucket)", "            if len(bucket) != 2:\n                self.model.random.shuffle(bucket)")],
    "instants at which exactly two agents coincide",
    "the same agent always acts first",
    """
class Ag(A.BaseAgent):
    def step(self):
        self.model.turns.append(self.unique_id)

class M(E.BaseEnvironment):
    def init(self):
        self.turns = []
        self.add_agent(Ag)
        self.add_agent(Ag)

m = M(seed="x")
for _ in range(100):
    m.step()
first = m.turns[::2].count(0)
assert 20 < first < 80, first
""")

bug("plot-carries-counts", "C34", [("soil/analysis.py", "axis=1).fillna(0).plot(ax=ax,", "axis=1).ffill().fillna(0).plot(ax=ax,")],
    "a value that agents report at some instant and nobody reports later",
    "the line of that value keeps its last count instead of going down to zero",
    """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from soil import analysis

class Ag(A.BaseAgent):
    phase = 0
    def step(self):
        self.phase += 1

class M(E.BaseEnvironment):
    def init(self):
        self.add_agent(Ag)
        self.add_agent(Ag)
        self.add_model_reporter("total", lambda m: 2)
        self.add_agent_reporter("phase")

m = M()
for _ in range(3):
    m.step()
plt.figure()
analysis.plot(m)
lines = [l for ax in plt.gcf().axes for l in ax.get_lines()]
counts = [list(l.get_ydata()) for l in lines]
assert [2, 0, 0, 0] in [list(map(float, c)) for c in counts], counts
""")
