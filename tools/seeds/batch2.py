BUGS = []
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug("awaited-delay-floor", "C04", [("soil/time.py", "        return (yield self.delta)", "        return (yield max(self.delta, 1.0))")],
    "an asynchronous step that awaits a delay shorter than one time unit",
    "awaiting self.delay(0.25) waits a whole time unit, unlike yielding or returning the same delay",
    """
class Gen(A.BaseAgent):
    def init(self):
        self.times = []

    def step(self):
        while True:
            self.times.append(self.now)
            yield self.delay(0.25)

class Co(A.BaseAgent):
    def init(self):
        self.times = []

    async def step(self):
        while True:
            self.times.append(self.now)
            await self.delay(0.25)

class M(E.BaseEnvironment):
    def init(self):
        self.add_agent(Gen)
        self.add_agent(Co)

m = S.Simulation(model=M, exporters=[], max_time=1).run()[0]
a, b = list(m.schedule.agents)
assert a.times == b.times == [0, 0.25, 0.5, 0.75], (a.times, b.times)
""")

bug("reporters-merged-in-place", "C12", [("soil/datacollection.py", "        super().__init__(model_reporters=model_reporters,", "        self._own.update(model_reporters)\n        super().__init__(model_reporters=dict(self._own),"),
                                         ("soil/datacollection.py", "class SoilCollector(MDC):\n", "class SoilCollector(MDC):\n    _own = {}\n\n")],
    "two simulations with different model reporters in the same process",
    "the reporters of one simulation are also evaluated (and recorded) in the ones run after it",
    """
class Ag(A.BaseAgent):
    def step(self):
        pass

class M(E.BaseEnvironment):
    def init(self):
        self.add_agent(Ag)

S.Simulation(model=M, exporters=[], max_time=2, model_reporters={"first": lambda m: 1}).run()
m = S.Simulation(model=M, exporters=[], max_time=2).run()[0]
assert "first" not in m.datacollector.model_vars, sorted(m.datacollector.model_vars)
""")

bug("last-step-not-collected", "C14", [("soil/environment.py", "        self.schedule.step()\n        self.datacollector.collect(self)", "        self.schedule.step()\n        if self.running:\n            self.datacollector.collect(self)")],
    "a simulation that ends because there is nothing left to do, not because of its limits",
    "the data of the last step is lost",
    """
class Ag(A.BaseAgent):
    x = 0
    def step(self):
        self.x += 1
        if self.x == 3:
            return self.die()

class M(E.BaseEnvironment):
    @property
    def total(self):
        return self.a.x
    def init(self):
        self.a = self.add_agent(Ag)
        self.add_model_reporter("total")

m = S.Simulation(model=M, exporters=[]).run()[0]
assert list(m.model_df(steps=True)["total"]) == [0, 1, 2, 3], list(m.model_df(steps=True)["total"])
""")

bug("params-id-as-text", "C15", [("soil/simulation.py", "            sha.update(repr(sorted(params.items())).encode())", "            sha.update(\",\".join(f\"{k}={v}\" for (k, v) in sorted(params.items())).encode())")],
    "configurations that differ only in the type of a value, e.g. 1 and '1'",
    "two configurations share an identifier in the database, so their results cannot be told apart",
    """
from soil import exporters as X
class Ag(A.BaseAgent):
    def step(self):
        pass

class M(E.BaseEnvironment):
    p = None
    def init(self):
        self.add_agent(Ag)

ids = []
class Ex(X.Exporter):
    def iteration_end(self, env, params, params_id):
        ids.append(params_id)

S.Simulation(model=M, exporters=[Ex], max_time=1, matrix={"p": [1, "1", 2.0, "2.0"]}).run()
assert len(set(ids)) == 4, ids
""")

bug("to-dict-drops-empty", "C18", [("soil/simulation.py", "        d = asdict(self)\n", "        d = {k: v for (k, v) in asdict(self).items() if v or v is False}\n")],
    "a simulation with an empty or zero value where the default is not empty (no exporters, zero steps)",
    "the value is left out of the configuration and comes back as the default",
    """
import yaml
class Ag(A.BaseAgent):
    def step(self):
        pass

s = S.Simulation(model=E.Environment, exporters=[], max_steps=0, level=0)
d = s.to_dict()
t = S.from_config(yaml.safe_load(s.to_yaml()))
assert list(t.exporters) == [], t.exporters
assert t.max_steps == 0, t.max_steps
""")

bug("str-deserializer-strips", "C19", [("soil/serialization.py", "        return lambda x=\"\": x\n", "        return lambda x=\"\": x.strip()\n")],
    "text with blanks or line breaks at its ends",
    "the text loses them when it is read back",
    """
from soil import serialization as Z
for v in ("a", " a", "b\\n", "", "\\t", "  x y  "):
    text, t = Z.serialize(v)
    assert Z.deserialize(t, text) == v, (v, Z.deserialize(t, text))
""")

bug("template-names-sorted", "C20", [("soil/serialization.py", "        \"names\": list(bounds.keys()),", "        \"names\": sorted(bounds.keys()),")],
    "a template whose bounded variables are not in alphabetical order and have different bounds",
    "variables get values from the bounds of another variable",
    """
from soil import serialization as Z
cfg = {"vars": {"bounds": {"z": [0, 1], "a": [10, 20], "m": [100, 200]}}, "sampler": {"N": 4}}
for p in Z.params_for_template(cfg):
    assert 0 <= p["z"] <= 1 and 10 <= p["a"] <= 20 and 100 <= p["m"] <= 200, p
""")

bug("topology-cwd-first", "C21", [("soil/network.py", "    if dir_path and not os.path.isabs(path):\n        path = os.path.join(dir_path, path)", "    if dir_path and not os.path.isabs(path) and not os.path.exists(path):\n        path = os.path.join(dir_path, path)")],
    "a topology file given by a relative path, while the working directory has another file with the same name",
    "the network is read from the wrong file",
    """
import networkx as nx
from soil import network
os.makedirs("sims")
nx.write_edgelist(nx.path_graph(5), os.path.join("sims", "net.edgelist"))
nx.write_edgelist(nx.path_graph(3), "net.edgelist")
G = network.from_topology("net.edgelist", dir_path=os.path.join(_tmp, "sims"))
assert len(G) == 5, len(G)
""")

bug("defaults-shallow", "C22", [("soil/agents/__init__.py", "                setattr(self, k, deepcopy(v))", "                setattr(self, k, copy(v))")],
    "a class default with nested mutable values, changed in place by one agent",
    "the change shows in every other agent of the class",
    """
class Ag(A.BaseAgent):
    memory = {"seen": []}
    plain = []

    def step(self):
        pass

m = E.BaseEnvironment()
a, b = m.add_agent(Ag), m.add_agent(Ag)
a.memory["seen"].append(1)
a.plain.append(1)
assert b.memory == {"seen": []} and b.plain == [], (b.memory, b.plain)
""")

bug("one-of-each-class", "C23", [("soil/environment.py", "        for cls in self.random.choices(agent_classes, weights=weights, k=k):", "        classes = agent_classes if k == len(agent_classes) else self.random.choices(agent_classes, weights=weights, k=k)\n        for cls in classes:")],
    "as many agents as classes, with a class of weight zero",
    "agents of a class with weight zero are added",
    """
class X(A.BaseAgent):
    def step(self):
        pass

class Y(X):
    pass

class Z(X):
    pass

m = E.BaseEnvironment()
m.add_agents([X, Y, Z], k=3, weights=[1, 0, 1])
assert len(m.schedule.agents) == 3
assert not any(isinstance(a, Y) for a in m.schedule.agents), [type(a).__name__ for a in m.schedule.agents]
""")

bug("set-splits-every-equals", "C24", [("soil/__init__.py", "                    k, v = s.split(\"=\", 1)[:2]", "                    k, v = s.split(\"=\")[:2]")],
    "--set with a value that contains an equals sign",
    "the value is cut at the second equals sign (or rejected)",
    """
import subprocess
import textwrap
open("sim.py", "w").write(textwrap.dedent('''
from soil import *
class Ag(BaseAgent):
    def step(self):
        pass
class M(Environment):
    p = None
    def init(self):
        self.add_agent(Ag)
        print("GOT", repr(self.p))
sim = Simulation(model=M, name="s", max_time=1, parameters={"p": 0})
'''))
r = subprocess.run([sys.executable, "-W", "ignore", "-m", "soil", "sim.py", "--no-dump", "--set", "p=dict(a=1,b=2)"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
assert "GOT {'a': 1, 'b': 2}" in r.stdout, r.stdout[-500:]
""")

bug("load-pops-sys-path", "C25", [("soil/simulation.py", "    if added:\n        sys.path.remove(folder)\n    if not sims:", "    if added:\n        sys.path.pop()\n    if not sims:")],
    "a simulation file that adds its own folder to the import path, in a folder that is not in the path",
    "the file's entry is removed, and the folder of the simulation stays in the import path",
    """
os.makedirs("lib")
os.makedirs("sims")
f = os.path.join(_tmp, "sims", "s.py")
import textwrap
open(f, "w").write(textwrap.dedent('''
import os, sys
sys.path.append(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from soil import *
sim = Simulation(model=Environment, name="s")
'''))
before = list(sys.path)
sims = S.from_file(f)
assert [s.name for s in sims] == ["s"]
left = [p for p in sys.path if p not in before]
assert left == [os.path.join(_tmp, "lib")], left
""")

bug("binary-files-no-backup", "C26", [("soil/utils.py", "    if backup and \"w\" in mode:\n", "    if backup and mode == \"w\":\n")],
    "a binary result (GEXF, image) written again in the same folder with backups on",
    "the previous file is overwritten without a backup",
    """
from soil import utils
with utils.safe_open("r.gexf", "wb") as f:
    f.write(b"one")
with utils.safe_open("r.gexf", "wb", backup=True) as f:
    f.write(b"two")
kept = [open(os.path.join("backup", n), "rb").read() for n in os.listdir("backup")] if os.path.exists("backup") else []
assert kept == [b"one"], kept
""")

bug("debug-fixes-order", "C27", [("soil/time.py", "        if self._shuffle:\n            self.model.random.shuffle(bucket)", "        if self._shuffle and not self.logger.isEnabledFor(logging.DEBUG):\n            self.model.random.shuffle(bucket)")],
    "a simulation with several agents run at the DEBUG level",
    "agents are activated in another order when debug messages are on, and the results change",
    """
def run(level):
    order = []
    class Ag(A.BaseAgent):
        def step(self):
            order.append(self.unique_id)
    class M(E.BaseEnvironment):
        def init(self):
            for _ in range(12):
                self.add_agent(Ag)
    logging.getLogger().handlers[:] = [logging.NullHandler()]
    S.Simulation(model=M, name="s%d" % level, exporters=[], max_time=3, level=level).run()
    return order

assert run(logging.INFO) == run(logging.DEBUG)
""")

bug("lockstep-inclusive", "C29", [("soil/time.py", "        while self.scheduler.time < end_time:\n", "        while self.scheduler.time <= end_time:\n")],
    "activations due exactly at the end of an interval",
    "they are performed one step early",
    """
times = []
class Ag(A.BaseAgent):
    def step(self):
        times.append((self.model.fixed.steps, self.now))
        return 2

class M(E.BaseEnvironment):
    def init(self):
        self.add_agent(Ag)

m = M()
m.fixed = T.Lockstepper(m.schedule, interval=2)
for _ in range(3):
    m.fixed.step()
assert times == [(0, 0), (1, 2), (2, 4)], times
""")


bug("matrix-values-as-set", "C13", [("soil/simulation.py", "        for values in product(*(self.matrix.values())):", "        for values in product(*(dict.fromkeys(v) for v in self.matrix.values())):")],
    "a matrix whose values compare equal without being the same: 1, 1.0 and True, or 0 and False",
    "some of the combinations are never run",
    """
class Ag(A.BaseAgent):
    def step(self):
        pass

class M(E.BaseEnvironment):
    p = None
    def init(self):
        self.add_agent(Ag)

res = S.Simulation(model=M, exporters=[], max_time=1, matrix={"p": [0, False, 1.0, 1]}).run()
assert [repr(m.p) for m in res] == ["0", "False", "1.0", "1"], [m.p for m in res]
""")

bug("csv-truncated", "C16", [("soil/exporters.py", "mode=\"a\") as f:\n                    df.to_csv", "mode=\"w\") as f:\n                    df.to_csv")],
    "CSV export of a simulation with several configurations (the files are per iteration)",
    "only the rows of the last configuration remain in the files",
    """
import csv as C
class Ag(A.BaseAgent):
    def step(self):
        pass

class M(E.BaseEnvironment):
    p = None
    def init(self):
        self.add_agent(Ag)

S.Simulation(model=M, name="sim", exporters=["csv"], dump=True, outdir=os.path.join(_tmp, "out"), max_time=2, matrix={"p": [1, 2]}).run()
rows = list(C.DictReader(open(os.path.join(_tmp, "out", "sim", "0.env.csv"))))
assert len({r["params_id"] for r in rows}) == 2, rows
""")

bug("mesa-agent-without-node", "C28", [("soil/environment.py", "            a = super().add_agent(agent_class, *args, **kwargs)\n        self.G.nodes[node_id][\"agent\"] = a\n", "            a = super().add_agent(agent_class, *args, **kwargs)\n")],
    "a plain mesa agent (its constructor takes no node) added to a node of the network",
    "the node stays empty: the agent cannot be found from the network, and the node is given to another agent",
    """
import mesa, networkx as nx
class Plain(mesa.Agent):
    def step(self):
        pass

m = E.Environment(topology=nx.path_graph(3))
a = m.add_agent(Plain, node_id=1)
assert m.agent_for_node_id(1) is a, m.agent_for_node_id(1)
""")

bug("sisa-contagion-saturates", "C30", [("soil/agents/SISaModel.py", "        if self.prob(content_neighbors * self.neutral_content_infected_prob):", "        if self.prob(min(content_neighbors, 1) * self.neutral_content_infected_prob):")],
    "a neutral agent with two or more content neighbours",
    "the probability of becoming content does not grow with the number of content neighbours",
    """
import networkx as nx
class M(E.Environment):
    neutral_discontent_spon_prob = neutral_discontent_infected_prob = neutral_content_spon_prob = 0
    neutral_content_infected_prob = 0.5
    discontent_neutral = discontent_content = content_discontent = content_neutral = 0
    standard_variance = variance_d_c = variance_c_d = 0
    def init(self):
        self.create_network(nx.star_graph(4))
        self.populate_network(A.SISaModel)

n = 0
for i in range(30):
    m = M(seed=i)
    hub = m.agent_for_node_id(0)
    for a in m.schedule.agents:
        if a is not hub:
            a._set_state("content")
    m.step()
    n += hub.state_id == "content"
assert n == 30, n
""")
