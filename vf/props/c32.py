"""C32: the guarantees hold together.

Agents that are at the same time state machines, network agents and receivers of messages run generated programs (timed,
as plain, generator or asynchronous states) that send, process, search, link, spawn, kill and die. A mirror of the whole
model is fed the same operations, in the order in which the scheduler activates the agents, and has to agree with every
observation made by the agents and with the whole model after every step."""
import copy
import networkx as nx
from vf.lib import *
from vf.core import Target

TECHNIQUE = "model-based: whole simulations of generated agent programs mirrored by a reference model that follows the order chosen by the scheduler"
ASSUMPTIONS = ["waits are positive; programs do not process messages from within a handler",
               "a node that keeps an agent that died without removing it may or may not count as free"]

STATES = ["calm", "busy", "odd"]
FORMS = ["plain", "gen", "async"]
pick = st.integers(0, 30)
wait = st.sampled_from([None, None, 1, 2, 0.5, 1.5, 3])
payload = st.sampled_from(["plus", "plus", 0, None, ["back", "plus"], ["back", ["back", 1]], "link", ["mood", 5]])
crit = st.sampled_from([{}, {}, {"state_id": "calm"}, {"state_id": "busy"}, {"state_id": ["busy", "odd"]}, {"mood": 0}, {"mood": [0, 1]}, {"agent_class": "A"}, {"agent_class": "B"},
                        {"state_id": "calm", "mood": 0}, {"limit": 2}])
op = st.one_of(
    st.tuples(st.just("tell"), pick, payload), st.tuples(st.just("tell"), pick, payload), st.tuples(st.just("bcast"), payload, crit, st.sampled_from([None, None, 0, 1, 2.5])),
    st.tuples(st.just("process")), st.tuples(st.just("process")), st.tuples(st.just("spawn"), pick, st.sampled_from([None, None, "free", "new"])), st.tuples(st.just("kill"), pick, weighted((True, 4), (False, 1))),
    st.tuples(st.just("link"), pick), st.tuples(st.just("near"), crit), st.tuples(st.just("near"), crit), st.tuples(st.just("search"), crit), st.tuples(st.just("mood"), st.integers(0, 3)),
    st.tuples(st.just("search"), crit), st.tuples(st.just("link"), pick), st.tuples(st.just("bcast"), payload, crit, st.just(None)),
    st.tuples(weighted(("die", 1), ("spawn_near", 1), ("process", 1)), weighted((True, 4), (False, 1)))).map(list)
chunk = st.tuples(st.lists(op, max_size=4), wait).map(list)
state = fixed(chunks=st.lists(chunk, min_size=1, max_size=3), next=st.one_of(st.none(), st.integers(0, 2), st.integers(0, 2)), style=st.integers(0, 2), listen=st.booleans())
program = st.lists(state, min_size=3, max_size=3)


def cases():
    return fixed(programs=st.lists(program, min_size=1, max_size=3), forms=st.tuples(*[st.sampled_from(FORMS)] * 6).map(list), default=st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list),
                 nodes=st.sampled_from([0, 2, 3, 4, 5, 6]), edges=st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)).map(list), max_size=8), directed=weighted((False, 3), (True, 1)),
                 how=st.sampled_from(["populate", "add", "add_agents", "mixed"]), start=st.lists(st.one_of(st.none(), st.sampled_from(STATES)), min_size=2, max_size=6), sched=sched_names,
                 steps=st.sampled_from([24, 12, 6, 3, 1, 18]), interval=st.sampled_from([1, 1, 2, 0.5]), rate=st.integers(0, 3))


class Mirror:
    """What the model should look like."""

    def __init__(self, case, obs):
        self.case, self.obs = case, obs
        self.ag = {}                # id -> record
        self.G = (nx.DiGraph if case["directed"] else nx.Graph)()
        self.at = {}                # node -> id
        self.ghosts = set()
        self.dead = set()
        self.acting = None
        self.processing = None
        self.acts = 0
        self.moods = 0

    def living(self):
        return sorted(i for i, r in self.ag.items())

    def born(self, a, cls, prog, state, now, node):
        uid = a.unique_id
        require(uid not in self.ag and uid not in self.dead, "the id {} is repeated", uid)
        require(a.node_id is not None, "{} has no node", a)
        free = [n for n in self.G if n not in self.at and n not in self.ghosts]
        if node is not None:
            same(a.node_id, node, "requested node")
            self.G.add_node(node)
        elif a.node_id in self.G:
            require(a.node_id in free or a.node_id in self.ghosts, "{} took the node {} of {}", a, a.node_id, self.at.get(a.node_id))
        else:
            require(not free, "{} got the new node {} with {} free", a, a.node_id, free)
            self.G.add_node(a.node_id)
        self.ghosts.discard(a.node_id)
        self.at[a.node_id] = uid
        want = state if state is not None else STATES[self.case["default"][cls == "B"]]
        self.ag[uid] = dict(cls=cls, prog=prog, state=want, due=now, inbox=[], mood=0, node=a.node_id, pc=0, real=a)

    def gone(self, uid, remove):
        r = self.ag.pop(uid)
        self.dead.add(uid)
        del self.at[r["node"]]
        if remove:
            self.G.remove_node(r["node"])
        else:
            self.ghosts.add(r["node"])

    def match(self, crit, uid=None):
        out = []
        for i, r in self.ag.items():
            ok = True
            for k, v in crit.items():
                if k == "limit":
                    continue
                have = r["state"] if k == "state_id" else r["cls"] if k == "agent_class" else r["mood"]
                ok = ok and have in (v if isinstance(v, list) else [v])
            if ok:
                out.append(i)
        return sorted(out)

    def near(self, uid, crit):
        r = self.ag[uid]
        ids = {self.at[n] for n in self.G.neighbors(r["node"]) if n in self.at}
        return [i for i in self.match(crit) if i in ids]

    def verify(self, env, when):
        now = env.now
        real = {a.unique_id: a for a in env.schedule.agents}
        same(sorted(real), self.living(), "%s: agents in the schedule" % when)
        same(env.count_agents(), len(self.ag), "%s: agents counted" % when)
        for i, a in real.items():
            r = self.ag[i]
            require(a is r["real"] and a.alive, "{}: {} is not the living agent that was added", when, a)
            same((a.state_id, a.mood, a.node_id), (r["state"], r["mood"], r["node"]), "%s: state, mood and node of %s" % (when, i))
            require(env.G.nodes[r["node"]].get("agent") is a, "{}: the node of {} holds {!r}", when, i, env.G.nodes[r["node"]].get("agent"))
            require(env.agent_for_node_id(r["node"]) is a, "{}: agent for the node of {}", when, i)
        same(sorted(map(str, env.G.nodes)), sorted(map(str, self.G.nodes)), "%s: nodes" % when)
        norm = lambda G: sorted(sorted(map(str, e)) if not self.case["directed"] else list(map(str, e)) for e in G.edges)
        same(norm(env.G), norm(self.G), "%s: links" % when)
        same(sorted(a.unique_id for a in env.network_agents if a.unique_id in self.ag), self.living(), "%s: network agents" % when)
        late = [(i, r["due"]) for i, r in self.ag.items() if r["due"] < now]
        require(not late, "{}: now is {} and these have not acted: {}", when, now, late)
        # the instant at which an agent that was killed was due may still be visited

    def rows(self, env, when):
        dc = env.datacollector
        n = {k: v[-1] for k, v in dc.model_vars.items()}
        same((n["agent_count"], n["moods"]), (len(self.ag), sum(r["mood"] for r in self.ag.values())), "%s: model data" % when)
        same(float(n["time"]), float(env.now), "%s: time in the model data" % when)
        df = env.agent_df(steps=True) if self.ag else None
        if df is None:
            return
        last = df.loc[env.schedule.steps] if env.schedule.steps in df.index.get_level_values(0) else None
        require(last is not None, "{}: no agent data for step {}", when, env.schedule.steps)
        got = {int(i): (row["state_id"], int(row["mood"])) for i, row in last.iterrows()}
        same(got, {i: (r["state"], r["mood"]) for i, r in self.ag.items()}, "%s: agent data" % when)


def build(case, obs):
    M = Mirror(case, obs)

    def received(self, msg, sender=None):
        r = M.ag.get(self.unique_id)
        if r is None:
            return
        require(M.processing == self.unique_id, "{} received {!r} without processing its messages", self, msg)
        while r["inbox"] and r["inbox"][0][2] is not None and r["inbox"][0][2] < self.now:
            r["inbox"].pop(0)
            obs.tag("expired")
        require(r["inbox"], "{} received {!r}, which was not sent (or twice)", self, msg)
        want, who, exp = r["inbox"].pop(0)
        require(msg is want, "{} received {!r} instead of {!r}", self, msg, want)
        same(None if sender is None else sender.unique_id, who, "sender of %r" % (msg,))
        obs.tag("received")
        if msg == "plus":
            self.mood += 1
            r["mood"] += 1
        elif msg == "link":
            if who in M.ag and who != self.unique_id:
                link(self, M.ag[who]["real"])
        elif isinstance(msg, list) and msg[0] == "mood":
            self["mood"] = msg[1]
            r["mood"] = msg[1]
        elif isinstance(msg, list) and msg[0] == "back" and who in M.ag:
            tell(self, M.ag[who]["real"], msg[1])

    def tell(me, other, v):
        M.ag[other.unique_id]["inbox"].append((v, me.unique_id, None))
        other.tell(v, sender=me)

    def link(me, other):
        M.G.add_edge(M.ag[me.unique_id]["node"], M.ag[other.unique_id]["node"])
        me.add_edge(other)
        obs.tag("linked")

    def kw(c):
        return {k: (CL[v] if k == "agent_class" else v) for k, v in c.items()}

    def spawn(env, prog, node, state=None, cls="A"):
        if len(M.ag) + len(M.dead) >= 24:
            return
        give = {}
        if node == "free":
            free = [n for n in M.G if n not in M.at and n not in M.ghosts]
            if not free:
                return
            give["node_id"] = free[prog % len(free)]
        elif node == "new":
            give["node_id"] = "own%d" % (len(M.ag) + len(M.dead))
            env.G.add_node(give["node_id"])
        if state is not None:
            give["state_id"] = state
        a = env.add_agent(CL[cls], prog=prog % len(case["programs"]), **give)
        M.born(a, cls, a.prog, state, env.now, give.get("node_id"))

    def perform(me, ops):
        uid = me.unique_id
        for o in ops:
            if uid not in M.ag:
                return
            kind = o[0]
            ids = M.living()
            if kind == "tell":
                tell(me, M.ag[ids[o[1] % len(ids)]]["real"], o[2])
            elif kind == "bcast":
                if "limit" in o[2]:
                    continue
                exp = None if o[3] is None else me.now + o[3]
                for i in M.match(o[2]):
                    if i != uid:
                        M.ag[i]["inbox"].append((o[1], uid, exp))
                me.model.broadcast(o[1], sender=me, **({} if o[3] is None else {"ttl": o[3]}), **kw(o[2]))
                obs.tag("broadcast")
            elif kind == "process":
                M.processing = uid
                pending = [m for m in M.ag[uid]["inbox"] if m[2] is None or m[2] >= me.now]
                got = me.process_messages()
                M.processing = None
                r = M.ag[uid]
                for m in pending:
                    require(not any(m is x for x in r["inbox"]), "{}: {!r} was not delivered", me, m)
                r["inbox"][:] = [m for m in r["inbox"] if m[2] is None or m[2] >= me.now]
                same(len(got), len(pending), "messages processed by %s" % me)
            elif kind == "spawn_near":
                before = set(M.ag)
                spawn(me.model, len(ids), None, cls="B", state="calm")
                for i in set(M.ag) - before:
                    link(me, M.ag[i]["real"])
            elif kind == "spawn":
                spawn(me.model, o[1], o[2], cls="AB"[o[1] % 2], state=[None, "busy", "odd"][o[1] % 3])
                obs.tag("spawned")
            elif kind == "kill":
                i = ids[o[1] % len(ids)]
                if i != uid:
                    other = M.ag[i]["real"]
                    if M.ag[i]["due"] == me.now:
                        obs.tag("killed_when_due")
                    M.gone(i, o[2])
                    other.die(remove=o[2])
                    obs.tag("killed")
            elif kind == "link":
                i = ids[o[1] % len(ids)]
                if i != uid:
                    link(me, M.ag[i]["real"])
            elif kind == "near":
                want = M.near(uid, o[1])
                got = sorted(a.unique_id for a in me.get_neighbors(**kw(o[1])))
                if "limit" in o[1]:
                    require(len(got) == min(o[1]["limit"], len(want)) and set(got) <= set(want), "{}: neighbours {} of {}", me, got, want)
                else:
                    same(got, want, "neighbours of %s with %s" % (me, o[1]))
                    same(me.count_neighbors(**kw(o[1])), len(want), "neighbours counted by %s" % me)
                if want:
                    obs.tag("neighbours")
            elif kind == "search":
                want = M.match(o[1])
                for get in (me.get_agents, me.model.get_agents):
                    got = sorted(a.unique_id for a in get(**kw(o[1])))
                    if "limit" in o[1]:
                        require(len(got) == min(o[1]["limit"], len(want)) and set(got) <= set(want), "{}: found {} of {}", me, got, want)
                    else:
                        same(got, want, "search of %s with %s" % (me, o[1]))
            elif kind == "mood":
                me.mood = o[1]
                M.ag[uid]["mood"] = o[1]
            elif kind == "die":
                M.gone(uid, o[1])
                obs.tag("died")
                return o[1]

    def begin(me, name):
        uid = me.unique_id
        require(uid in M.ag, "{} acts at {} after its death", me, me.now)
        r = M.ag[uid]
        require(M.acting is None, "{} acts while {} is acting", me, M.acting)
        same(float(me.now), float(r["due"]), "time of the activation of %s" % me)
        first = min(x["due"] for x in M.ag.values())
        same(float(first), float(me.now), "time while others are due")
        same(name, r["state"], "state in which %s acts" % me)
        M.acting = uid
        M.acts += 1
        if M.acts > 3000:
            raise Runaway()
        return r

    def end(me, r, w, nxt=None):
        """Settle what happens next; the agent may have died."""
        M.acting = None
        r["due"] = me.now + (case["interval"] if w is None else w)
        if nxt is not None:
            if r["state"] != nxt:
                obs.tag("transition")
            r["state"] = nxt

    def result(me, spec, w, nxt):
        """The many ways of saying the same."""
        s = spec["style"]
        if nxt is None:
            if w is None:
                return None
            return [w, me.delay(w), me.at(me.now + w)][s]
        target = getattr(me, nxt)
        if w is None:
            return [nxt, target, target][s]
        return [target.delay(w), target.at(me.now + w), (nxt, w)][s]

    def plain(name, ix):
        def f(self):
            r = begin(self, name)
            spec = case["programs"][self.prog][ix]
            pc = r["pc"]
            ops, w = spec["chunks"][pc]
            dead = perform(self, ([["process"]] if spec["listen"] else []) + ops)
            if self.unique_id not in M.ag:
                M.acting = None
                return self.die(remove=dead)
            r["pc"] = pc + 1
            if r["pc"] < len(spec["chunks"]):
                end(self, r, w)
                return None if w is None else self.delay(w) if spec["style"] else w
            r["pc"] = 0
            nxt = None if spec["next"] is None else STATES[spec["next"]]
            end(self, r, w, nxt)
            return result(self, spec, w, nxt)
        f.__name__ = name
        return f

    def gen(name, ix):
        def f(self):
            spec = case["programs"][self.prog][ix]
            for pc, (ops, w) in enumerate(spec["chunks"]):
                r = begin(self, name)
                same(r["pc"], pc, "%s continues where it paused" % self)
                dead = perform(self, ([["process"]] if spec["listen"] else []) + ops)
                if self.unique_id not in M.ag:
                    M.acting = None
                    return self.die(remove=dead)
                if pc + 1 < len(spec["chunks"]):
                    r["pc"] = pc + 1
                    end(self, r, w)
                    obs.tag("paused")
                    yield (None if w is None else self.delay(w) if spec["style"] else w)
            r["pc"] = 0
            nxt = None if spec["next"] is None else STATES[spec["next"]]
            end(self, r, w, nxt)
            return result(self, spec, w, nxt)
        f.__name__ = name
        return f

    def asyn(name, ix):
        async def f(self):
            spec = case["programs"][self.prog][ix]
            for pc, (ops, w) in enumerate(spec["chunks"]):
                r = begin(self, name)
                same(r["pc"], pc, "%s continues where it paused" % self)
                dead = perform(self, ([["process"]] if spec["listen"] else []) + ops)
                if self.unique_id not in M.ag:
                    M.acting = None
                    return self.die(remove=dead)
                if pc + 1 < len(spec["chunks"]):
                    r["pc"] = pc + 1
                    w = case["interval"] if w is None else w
                    end(self, r, w)
                    obs.tag("paused")
                    await self.delay(w)
            r["pc"] = 0
            nxt = None if spec["next"] is None else STATES[spec["next"]]
            end(self, r, w, nxt)
            return result(self, spec, w, nxt)
        f.__name__ = name
        return f

    MAKE = {"plain": plain, "gen": gen, "async": asyn}

    def klass(name, forms, default, base=A.Agent):
        ns = {"mood": 0, "prog": 0, "on_receive": received}
        for ix, s in enumerate(STATES):
            state = A.state(MAKE[forms[ix]](s, ix))
            ns[s] = A.default_state(state) if ix == default else state
        return type(A.Agent)(name, (base,), ns)

    CL = {"A": klass("Alpha", case["forms"][:3], case["default"][0])}
    CL["B"] = klass("Beta", case["forms"][3:], case["default"][1])

    class World(E.Environment):
        default_interval = case["interval"]
        schedule_class = staticmethod(SCHEDULERS()[case["sched"]])

        def init(self):
            self.add_model_reporter("moods", lambda m: sum(a.mood for a in m.get_agents()))
            self.add_agent_reporter("state_id")
            self.add_agent_reporter("mood")
            for n in self.G:
                M.G.add_node(n)
            M.G.add_edges_from(self.G.edges)
            start, how = case["start"], case["how"]
            if how in ("mixed", "add"):
                for j, s in enumerate(start):
                    spawn(self, j, ["free", None, "new"][j % 3], s, "AB"[(j + case["rate"]) % 2])
            if how in ("mixed", "populate") and len(self.G):
                free = [n for n in self.G if n not in M.at]
                self.populate_network([CL["A"], CL["B"]], weights=[1, case["rate"]], prog=0)
                same(len(list(self.network_agents)), len(self.G), "agents after populating")
                for n in free:
                    a = self.agent_for_node_id(n)
                    M.born(a, "A" if isinstance(a, CL["A"]) else "B", 0, None, self.now, n)
            if how == "add_agents" or not M.ag:
                old = set(self.schedule.agents)
                self.add_agents([CL["A"], CL["B"]], k=len(start), weights=[1, case["rate"]], prog=0, state_id=start[0] or "calm")
                new = [a for a in self.schedule.agents if a not in old]
                same(len(new), len(start), "agents added")
                for a in sorted(new, key=lambda a: a.unique_id):
                    M.born(a, "A" if isinstance(a, CL["A"]) else "B", 0, start[0] or "calm", self.now, None)
            if case["rate"] == 0 and how in ("populate", "add_agents"):
                require(not [a for a in self.schedule.agents if isinstance(a, CL["B"])], "a class with no weight appeared")
            M.verify(self, "after the initialization")

        def step(self):
            super().step()
            when = "after step %d" % self.schedule.steps
            M.verify(self, when)
            M.rows(self, when)
    return M, World


def check(case, obs):
    M, World = build(case, obs)
    G = (nx.DiGraph if case["directed"] else nx.Graph)()
    G.add_nodes_from(range(case["nodes"]))
    if case["nodes"]:
        G.add_edges_from((a % case["nodes"], b % case["nodes"]) for a, b in case["edges"] if a % case["nodes"] != b % case["nodes"])
    before = (sorted(G.nodes(data=True), key=str), sorted(G.edges))
    with silent():
        res = S.Simulation(model=World, parameters={"topology": G}, max_steps=case["steps"], exporters=[], dump=False, seed="c32").run()
    same(len(res), 1, "models")
    env = res[0]
    same((sorted(G.nodes(data=True), key=str), sorted(G.edges)), before, "the topology given")
    if M.ag:
        same(env.schedule.steps, case["steps"], "steps performed")
        require(env.running, "the model stopped with agents left: {}", M.living())
    else:
        require(not env.running or env.schedule.steps == case["steps"], "the model did not stop although nobody is left")
        obs.tag("extinct")
    obs.tag("crowd", int(len(M.ag) > 8))
    obs.hit(M.acts > 5 and sum(obs.tags.get(k, 0) > 0 for k in ("received", "transition", "spawned", "killed", "died", "neighbours", "paused")) >= 2)


TARGETS = [Target("whole", cases, check, quick=2000, rule="more than five activations and at least two of: messages received, transitions, births, deaths, neighbours found, pauses")]
