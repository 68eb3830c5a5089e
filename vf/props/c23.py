"""C23: adding agents creates exactly the requested population."""
import mesa, math
import networkx as nx
from vf.lib import *
from vf.core import Target

TECHNIQUE = "generated histories of additions, removals and steps against a set model of the population; weighted draws compared with binomial bounds of seven standard deviations"
ASSUMPTIONS = ["explicit ids are outside the range of automatic ids", "populating is asked of networks with nodes"]


class Log:
    def step(self):
        self.model.acts.append((float(self.model.schedule.time), self.unique_id))


class P(Log, A.BaseAgent):
    mood = "calm"


class Q(Log, A.BaseAgent):
    pass


class R(Log, A.EventedAgent):
    pass


class Net(Log, A.NetworkAgent):
    mood = "calm"


class Fsm(A.FSM):
    @A.default_state
    @A.state
    def only(self):
        self.model.acts.append((float(self.model.schedule.time), self.unique_id))


class Full(A.Agent):
    @A.default_state
    @A.state
    def only(self):
        self.model.acts.append((float(self.model.schedule.time), self.unique_id))


class Mesa(mesa.Agent):
    def __init__(self, unique_id, model, mood=None, size=None):
        super().__init__(unique_id, model)
        if mood is not None:
            self.mood = mood
        if size is not None:
            self.size = size

    def step(self):
        self.model.acts.append((float(self.model.schedule.time), self.unique_id))


CL = {"P": P, "Q": Q, "R": R, "Net": Net, "Fsm": Fsm, "Full": Full, "Mesa": Mesa}
NETS = ["Net", "Full"]
attrs = st.fixed_dictionaries({}, optional={"mood": st.sampled_from(["sad", "", 0]), "size": st.integers(0, 3)})
weight = st.sampled_from([0, 1, 2, 0.5, 0.001, 10])


def some(names):
    return st.lists(st.tuples(st.sampled_from(names), weight).map(list), min_size=1, max_size=4)


def cases():
    adds = [fixed(op=st.just("add"), cls=st.sampled_from(sorted(CL)), attrs=attrs, id=st.one_of(st.none(), st.integers(0, 30))),
            fixed(op=st.just("adds"), cls=some(sorted(CL)), k=st.integers(0, 6), weights=st.booleans(), attrs=attrs, form=st.sampled_from(["list", "tuple", "type"])),
            fixed(op=st.just("adds_default"), cls=some(NETS), weights=st.booleans(), attrs=attrs, form=st.sampled_from(["list", "type"])),
            fixed(op=st.just("populate"), cls=some(NETS), weights=st.booleans(), attrs=attrs, form=st.sampled_from(["list", "type", "tuple"])),
            fixed(op=st.just("nodes"), n=st.integers(1, 3)),
            fixed(op=st.just("remove"), who=st.integers(0, 20), how=st.sampled_from(["die", "schedule"])),
            fixed(op=st.just("step"), n=st.integers(1, 3))]
    return fixed(nodes=st.integers(0, 5), start=st.sampled_from(["none", "agent_class", "agents"]), ops=st.lists(st.one_of(*adds), min_size=1, max_size=10), env=weighted(("Environment", 3), ("BaseEnvironment", 1), ("NetworkEnvironment", 1)), seed=st.sampled_from(["s", "t"]),
                 sched=sched_names)


def pick(op):
    names = [c for c, _ in op["cls"]]
    ws = [w for _, w in op["cls"]]
    if not sum(ws):
        ws[0] = 1
    classes = [CL[n] for n in names]
    if op["form"] == "type":
        return classes[0], None, [classes[0]], {}
    kw = {"weights": ws} if op["weights"] else {}
    allowed = [c for c, w in zip(classes, ws) if w] if op["weights"] else classes
    return (tuple(classes) if op["form"] == "tuple" else classes), kw, allowed, kw


def check(case, obs):
    net = case["env"] != "BaseEnvironment"
    env = {"Environment": soil.Environment, "BaseEnvironment": E.BaseEnvironment, "NetworkEnvironment": E.NetworkEnvironment}[case["env"]]
    kw = dict(seed=case["seed"], schedule_class=SCHEDULERS()[case["sched"]], acts=[])
    if net and case["nodes"]:
        kw["topology"] = nx.path_graph(case["nodes"])
    expect_first = {}
    alive, ever = set(), set()
    log = []
    if case["start"] == "agent_class" and net and case["nodes"]:
        kw["agent_class"] = Net
    elif case["start"] == "agents":
        kw["agents"] = dict(agent_classes=[P, Q], k=3, size=2)
    m = env(**kw)
    require(m.acts == [], "agents were activated before the first step")

    def grown(before, count, allowed, given, what):
        now = list(m.schedule.agents)
        new = [a for a in now if a.unique_id not in before]
        same(len(now), len(set(a.unique_id for a in now)), "%s: distinct ids" % what)
        same(len(new), count, "%s: agents created" % what)
        for a in new:
            require(any(type(a) is c for c in allowed), "{}: agent of class {}, which was not among {}", what, type(a), allowed)
            require(a.unique_id not in ever, "{}: the id {} was used before", what, a.unique_id)
            for k, v in given.items():
                require(getattr(a, k, MISSING) == v and type(getattr(a, k)) is type(v), "{}: attribute {} is {!r}, requested {!r}", what, k, getattr(a, k, None), v)
            if "mood" not in given and hasattr(type(a), "_defaults") and "mood" in type(a)._defaults:
                same(a.mood, "calm", "%s: default attribute" % what)
            require(a.model is m, "{}: model", what)
            alive.add(a.unique_id)
            ever.add(a.unique_id)
            expect_first[a.unique_id] = float(m.now)

    if kw.get("agent_class"):
        grown(set(), case["nodes"], [Net], {}, "agent_class")
    elif kw.get("agents"):
        grown(set(), 3, [P, Q], {"size": 2}, "agents")
    biggest = 0
    for op in case["ops"]:
        before = {a.unique_id for a in m.schedule.agents}
        same(before, alive, "population before %s" % op["op"])
        w = op["op"]
        if w == "add":
            given = dict(op["attrs"])
            cls = CL[op["cls"]]
            if not net and issubclass(cls, A.NetworkAgent):
                continue
            idk = {}
            if op["id"] is not None and 1000 + op["id"] not in ever:
                idk = {"unique_id": 1000 + op["id"]}
            a = m.add_agent(cls, **idk, **given)
            if idk:
                same(a.unique_id, idk["unique_id"], "requested id")
            require(a in list(m.schedule.agents), "the returned agent is not scheduled")
            grown(before, 1, [cls], given, "add_agent")
        elif w in ("adds", "adds_default", "populate"):
            classes, _, allowed, wk = pick(op)
            if not net and (w != "adds" or any(issubclass(c, A.NetworkAgent) for c in ([classes] if isinstance(classes, type) else classes))):
                continue
            free = sum(1 for n, d in m.G.nodes(data=True) if "agent" not in d) if net else 0
            size = len(m.G) if net else 0
            if w == "adds":
                m.add_agents(classes, k=op["k"], **wk, **op["attrs"])
                grown(before, op["k"], allowed, op["attrs"], w)
                biggest = max(biggest, op["k"])
            elif w == "adds_default":
                if not size:
                    try:
                        m.add_agents(classes, **wk, **op["attrs"])
                    except ValueError:
                        same({a.unique_id for a in m.schedule.agents}, before, "population after a rejected addition")
                        continue
                    raise Violation("agents were added to an empty network")
                m.add_agents(classes, **wk, **op["attrs"])
                grown(before, size, allowed, op["attrs"], w)
                biggest = max(biggest, size)
            else:
                if not size or not any(getattr(a, "alive", True) for a in m.network_agents) and not free:
                    continue
                m.populate_network(classes, **wk, **op["attrs"])
                grown(before, free, allowed, op["attrs"], w)
                biggest = max(biggest, free)
        elif w == "nodes" and net:
            for _ in range(op["n"]):
                m.G.add_node("extra%d" % len(m.G))
        elif w == "remove" and alive:
            victim = sorted(alive)[op["who"] % len(alive)]
            a = [x for x in m.schedule.agents if x.unique_id == victim][0]
            if op["how"] == "die" and hasattr(a, "die"):
                a.die()
            else:
                m.schedule.remove(a)
            alive.discard(victim)
            expect_first.pop(victim, None)
        elif w == "step" and alive:
            for _ in range(op["n"]):
                m.step()
            for i in sorted(alive):
                first = [t for t, x in m.acts if x == i][:1]
                want = expect_first.get(i)
                if want is None:
                    continue
                if want < m.now:
                    same(first, [want], "first activation of agent %d" % i)
        same({a.unique_id for a in m.schedule.agents}, alive, "population after %s" % w)
        same(m.schedule.get_agent_count(), len(alive), "agent count")
        same(m.count_agents(), len(alive), "count_agents")
        same(sorted(a.unique_id for a in m), sorted(alive), "iteration over the model")
    obs.hit(len(ever) >= 3 and biggest >= 1)
    if len(alive) < len(ever):
        obs.tag("removals")


MISSING = object()


# ---- weights
def weight_cases():
    return fixed(w=st.lists(st.sampled_from([0, 1, 1, 2, 3, 0.5, 0.1, 5]), min_size=1, max_size=5), k=st.sampled_from([300, 600]), how=st.sampled_from(["adds", "populate", "none", "populate_none", "partial"]), seed=st.integers(0, 10 ** 6), dup=st.booleans())


def check_weights(case, obs):
    w = list(case["w"])
    if not sum(w):
        w[0] = 1
    base = Net if case["how"] in ("populate", "populate_none", "partial") else P
    classes = [type(base)("K%d" % i, (base,), {"__module__": __name__}) for i in range(len(w))]
    if case["dup"] and len(classes) > 1:
        classes[-1] = classes[0]
    k = case["k"]
    m = soil.Environment(seed="w%d" % case["seed"], acts=[], **({"topology": nx.empty_graph(k)} if base is Net else {}))
    done = 0
    if case["how"] == "partial":
        for n in range(10):
            m.add_node(Net, node_id=n)
        done = 10
    if case["how"] in ("adds", "none"):
        m.add_agents(classes, k=k, **({"weights": w} if case["how"] == "adds" else {}))
    else:
        m.populate_network(classes, **({} if case["how"] == "populate_none" else {"weights": w}))
    if case["how"] in ("none", "populate_none"):
        w = [1] * len(w)
    n = k - done
    share = {}
    for c, x in zip(classes, w):
        share[c] = share.get(c, 0) + x / sum(w)
    counts = {c: 0 for c in share}
    for a in m.schedule.agents:
        if type(a) in counts:
            counts[type(a)] += 1
    same(sum(counts.values()), n, "agents created")
    for c, p in share.items():
        sd = math.sqrt(n * p * (1 - p))
        require(abs(counts[c] - n * p) <= 7 * sd + 1e-9, "{} of {} agents where the weights give {:.1f} +- {:.1f}", counts[c], n, n * p, sd)
    obs.hit(len([x for x in w if x]) > 1)


TARGETS = [Target("histories", cases, check, quick=3200, rule="at least three agents, some added in a group"),
           Target("weights", weight_cases, check_weights, quick=240, rule="at least two classes with weight")]
