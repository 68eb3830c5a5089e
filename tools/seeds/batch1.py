BUGS = []
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug("sched-bucket-tolerance", "C01", [("soil/time.py", "            if l[0] == when:\n                l[1].append(agent)", "            if math.isclose(l[0], when, rel_tol=1e-7):\n                l[1].append(agent)")],
    "two agents whose wake-up times differ by less than one part in ten million (large clock values and fractional waits)",
    "an agent is put in the bucket of a slightly different instant and is activated early or late",
    """
class Late(A.BaseAgent):
    def init(self):
        self.times = []

    def step(self):
        self.times.append(self.now)
        return self.wait if len(self.times) == 1 else T.INFINITY

class M(E.BaseEnvironment):
    def init(self):
        self.a = self.add_agent(Late, wait=2 ** 24)
        self.b = self.add_agent(Late, wait=2 ** 24 + 0.5)

m = M()
for _ in range(8):
    if m.running:
        m.step()
assert m.a.times == [0, 2 ** 24], m.a.times
assert m.b.times == [0, 2 ** 24 + 0.5], m.b.times
""")

bug("both-limits-inclusive", "C02", [("soil/simulation.py", "is_done = lambda model: (not model.running) or (model.schedule.time >= max_time) or (model.schedule.steps >= max_steps)", "is_done = lambda model: (not model.running) or (model.schedule.time > max_time) or (model.schedule.steps >= max_steps)")],
    "both a maximum time and a (larger) maximum number of steps, with an activation due exactly at the maximum time",
    "activations due at the maximum time are performed when a number of steps is also given",
    """
class Ag(A.BaseAgent):
    def init(self):
        self.times = []

    def step(self):
        self.times.append(self.now)

class M(E.BaseEnvironment):
    def init(self):
        self.a = self.add_agent(Ag)

for kw in (dict(max_time=3), dict(max_time=3, max_steps=50), dict(max_time=2.5, max_steps=50)):
    m = S.Simulation(model=M, exporters=[], **kw).run()[0]
    assert m.a.times == [0, 1, 2], (kw, m.a.times)
""")

bug("removed-node-kept-in-schedule", "C03", [("soil/agents/network_agents.py", "        if remove:\n            self.remove_node()\n        return super().die()", "        if remove:\n            self.remove_node()\n            return super().die()\n        self.alive = False\n        return super().delay(float(\"inf\"))")],
    "a network agent that dies keeping its node (remove=False), killed by another agent while it still has a pending activation",
    "an agent that dies without giving up its node stays in the schedule: it is still counted, and still activated when another agent killed it",
    """
log = []

class Victim(A.NetworkAgent):
    def step(self):
        log.append(self.now)

class Killer(A.NetworkAgent):
    def step(self):
        if self.now == 1.5:
            self.model.victim.die(remove=False)
        return 1.5

class M(soil.Environment):
    def init(self):
        self.victim = self.add_agent(Victim)
        self.add_agent(Killer)

m = M()
while m.now < 5:
    m.step()
assert log == [0, 1], log
assert m.count_agents() == 1, m.count_agents()
""")

bug("broadcast-absolute-ttl", "C09", [("soil/environment.py", "                    expiration=expiration if ttl is None else self.now + ttl,", "                    expiration=expiration or (self.now + ttl if ttl else None),")],
    "a broadcast with a time-to-live of zero read at a later instant, or one given both an expiration and a time-to-live",
    "a time-to-live of zero means that the message never expires, so it is delivered after it should have expired",
    """
got = []

class Ag(A.EventedAgent):
    def on_receive(self, msg, sender=None):
        got.append((self.now, msg))

    def step(self):
        self.process_messages()

class M(soil.Environment):
    def init(self):
        self.add_agent(Ag)

m = M()
m.step()
m.broadcast("in time", ttl=1)
assert m.now == 1
a = m.get_agents()[0]
m.broadcast("late", ttl=0)
m.schedule.time = 1.5
a.process_messages()
assert got == [(1.5, "in time")], got
""")

bug("received-deadline-reset", "C10", [("soil/agents/evented.py", "        while self.now < expiration:\n            if self._inbox:", "        while self.now <= expiration:\n            if self._inbox:")],
    "an agent waiting for messages that polls at the very instant of its deadline",
    "a message arriving exactly at the deadline is returned instead of a timeout, and the timeout is noticed one polling interval late",
    """
from soil.events import TimedOut
out = []

class Ag(A.EventedAgent):
    async def step(self):
        try:
            out.append((await self.received(timeout=3)))
        except TimedOut:
            out.append(("timeout", self.now))
        await self.delay(1000)

class M(soil.Environment):
    def init(self):
        self.add_agent(Ag)

m = M()
while m.now < 20:
    m.step()
assert out == [("timeout", 3)], out
""")

bug("iteration-seed-numeric", "C11", [("soil/simulation.py", "            seed=f\"{self.seed}_iteration_{iteration_id}\",", "            seed=f\"{self.seed}_iteration_{iteration_id}\"[-10:],")],
    "two simulations whose seeds differ only in their beginning, or iterations with ids of several digits",
    "different seeds give the same random stream",
    """
class Ag(A.BaseAgent):
    def step(self):
        return 1

class M(E.BaseEnvironment):
    def init(self):
        self.add_agent(Ag)
        self.draw = [self.random.random() for _ in range(5)]

def run(seed):
    return [m.draw for m in S.Simulation(model=M, exporters=[], seed=seed, iterations=2, max_steps=1).run()]
assert run("one") == run("one")
assert run("one")[0] != run("one")[1]
assert run("one")[0] != run("two")[0]
""")

bug("dry-run-backup", "C17", [("soil/exporters.py", "        if not self.dump:\n            logger.debug(\"NOT dumping results\")\n            return\n        with self.output(self.simulation.id + \".dumped.yml\") as f:", "        if not (self.dump or self.simulation.backup):\n            logger.debug(\"NOT dumping results\")\n            return\n        os.makedirs(self.outdir, exist_ok=True)\n        with self.output(self.simulation.id + \".dumped.yml\") as f:")],
    "a run that does not dump its results but has backups enabled, with the YAML (or default) exporter",
    "the output folder is created although results are not dumped",
    """
class Ag(A.BaseAgent):
    def step(self):
        return 1

class M(E.BaseEnvironment):
    def init(self):
        self.add_agent(Ag)

for backup in (False, True):
    S.Simulation(model=M, exporters=["default"], dump=False, backup=backup, outdir=os.path.join(os.getcwd(), "out"), max_steps=1).run()
    assert os.listdir(".") == [], os.listdir(".")
""")

bug("search-limit-first", "C06", [("soil/agents/__init__.py", "    if limit is not None:\n        f = islice(f, limit)\n\n    yield from f", "    yield from f"), ("soil/agents/__init__.py", "    if agent_class is not None:\n        f = filter(lambda agent: isinstance(agent, agent_class), f)\n", "    if agent_class is not None:\n        f = filter(lambda agent: isinstance(agent, agent_class), f)\n\n    if limit is not None:\n        f = islice(f, limit)\n")],
    "a search combining a limit with attribute values, where agents without those values come first",
    "the limit is applied before the attribute criteria, so matching agents are missed",
    """
class X(A.BaseAgent):
    kind = 0

    def step(self):
        pass

class M(E.BaseEnvironment):
    def init(self):
        self.add_agents([X], k=2)
        self.add_agents([X], k=2, kind=1)

m = M()
got = m.get_agents(kind=1, limit=2)
assert [a.unique_id for a in got] == [2, 3], got
""")

bug("add-node-skips-attributed", "C07", [("soil/network.py", "        if \"agent\" not in data:\n            return next_id", "        if not data:\n            return next_id")],
    "adding a node agent to a network whose free nodes carry attributes of their own",
    "a free node with attributes is not used, and a brand new node is created instead",
    """
import networkx as nx
G = nx.path_graph(3)
nx.set_node_attributes(G, {0: (0, 0), 1: (0, 1), 2: (1, 1)}, "pos")

class Ag(A.NetworkAgent):
    def step(self):
        pass

m = soil.Environment(topology=G)
for _ in range(3):
    a = m.add_node(Ag)
    assert a.node_id in (0, 1, 2), a.node_id
assert len(m.G) == 3
""")

bug("directed-neighbours-both-ways", "C08", [("soil/agents/network_agents.py", "            for node_id in self.G.neighbors(self.node_id):", "            for node_id in self.G.to_undirected(as_view=True).neighbors(self.node_id):")],
    "a directed network with a link in one direction only",
    "agents that only have a link towards an agent appear as its neighbours",
    """
import networkx as nx

class Ag(A.NetworkAgent):
    def step(self):
        pass

class M(soil.Environment):
    def init(self):
        self.populate_network(Ag)

m = M(topology=nx.path_graph(3, create_using=nx.DiGraph))
a, b, c = (m.agent_for_node_id(i) for i in range(3))
assert a.get_neighbors() == [b]
assert b.get_neighbors() == [c], b.get_neighbors()
assert c.count_neighbors() == 0
""")
