"""C06: agent searches return exactly the agents matching every criterion."""
import copy
from vf.lib import *
from vf.core import Target

TECHNIQUE = "generated populations, histories and queries compared with a brute-force conjunction of the criteria"
ASSUMPTIONS = ["classes are given as a type, a list of types or one name; id lists are lists; attribute criteria use == and lists mean any of (tuples are values like any other)"]


class P(A.BaseAgent):
    def step(self):
        pass


class Q(P):
    pass


class N(A.NetworkAgent):
    def step(self):
        pass


class F(A.FSM):
    @A.default_state
    @A.state
    def s1(self):
        pass

    @A.state
    def s2(self):
        pass


class Full(A.Agent):
    @A.default_state
    @A.state
    def s1(self):
        pass

    @A.state
    def s3(self):
        pass


class M(mesa.Agent):
    def __init__(self, unique_id, model, **kw):
        super().__init__(unique_id, model)
        for k, v in kw.items():
            setattr(self, k, v)

    def step(self):
        pass


CLS = {"P": P, "Q": Q, "N": N, "F": F, "Full": Full, "M": M, "Base": A.BaseAgent, "FSM": A.FSM, "Net": A.NetworkAgent,
       "mesa": mesa.Agent, "Counter": A.CounterModel}
NAMES = {"vf.props.c06.Q": Q, "vf.props.c06.P": P, "vf.props.c06.M": M, "BaseAgent": A.BaseAgent, "FSM": A.FSM, "soil.agents.NetworkAgent": A.NetworkAgent,
         "CounterModel": A.CounterModel, "soil.Agent": A.Agent}

vals = st.sampled_from([0, 0, 1, None, "a", "a", "1", {"t": [0, 1]}, {"t": [1]}, {"s": [0, 1]}, {"s": ["a"]}])   # {"t": …} stands for a tuple and {"s": …} for a set
agent = fixed(cls=st.sampled_from(["P", "P", "Q", "N", "F", "Full", "M", "Counter"]), x=vals, y=st.one_of(st.none(), vals), z=vals,
              sid=st.sampled_from([None, None, "s1", "s2", "s3"]))


def maybe(s, w=2):
    return st.one_of(*([st.none()] * w + [s]))


crit = st.one_of(vals, st.lists(vals, min_size=1, max_size=3), st.lists(vals, max_size=2))
query = fixed(
    ids=maybe(st.one_of(st.integers(0, 8), st.lists(st.integers(0, 8), max_size=8), st.lists(st.integers(0, 8), min_size=4, max_size=8), st.lists(st.one_of(st.integers(0, 8), st.sampled_from(["0", "1", "2", None])), min_size=1, max_size=4)), 3),
    pos=maybe(st.lists(st.integers(0, 8), min_size=1, max_size=3), 5),
    cls=maybe(st.one_of(st.sampled_from(sorted(CLS)).map(lambda k: ["type", k]),
                        st.lists(st.sampled_from(sorted(CLS)), min_size=0, max_size=6).map(lambda k: ["list", k]),
                        st.sampled_from(sorted(NAMES)).map(lambda k: ["name", k]))),
    sid=maybe(st.one_of(st.sampled_from(["s1", "s1", "s2", "s3", "nope"]), st.lists(st.sampled_from(["s1", "s2", "s3"]), max_size=2), st.lists(st.sampled_from(["s1", "s2", "s3"]), max_size=2).map(lambda l: {"t": l}))),
    state=maybe(st.dictionaries(st.sampled_from(["x", "y", "z"]), crit, max_size=2)),
    kw=st.one_of(st.just({}), st.dictionaries(st.sampled_from(["x", "y", "z"]), crit, max_size=2)),
    limit=maybe(st.integers(0, 4), 3),
    by=st.one_of(st.just("model"), st.integers(0, 7)),
)


def cases():
    op = st.one_of(query.map(lambda q: ["query", q]), query.map(lambda q: ["query", q]),
                   agent.map(lambda a: ["add", a]), st.integers(0, 7).map(lambda i: ["kill", i]),
                   st.tuples(st.integers(0, 7), st.sampled_from(["x", "y", "z"]), vals).map(lambda t: ["set"] + list(t)))
    return fixed(agents=st.lists(agent, min_size=3, max_size=8), ops=st.lists(op, min_size=3, max_size=10))


def plain(x):
    if isinstance(x, dict):
        if set(x) in ({"t"}, {"s"}):
            return tuple(x["t"]) if "t" in x else set(x["s"])
        return {k: plain(v) for k, v in x.items()}
    return [plain(i) for i in x] if isinstance(x, list) else x


def check(case, obs):
    case = plain(case)
    env = E.Environment()
    live, dead = [], []

    def add(spec):
        kw = {"x": spec["x"], "z": spec["z"]}
        if spec["y"] is not None:
            kw["y"] = spec["y"]
        cls = CLS[spec["cls"]]
        sid = spec["sid"]
        if issubclass(cls, A.FSM):
            if sid in cls.states():
                kw["state_id"] = sid
        elif sid is not None:
            kw["state_id"] = sid
        live.append(env.add_agent(cls, **kw))

    for a in case["agents"]:
        add(a)
    for op in case["ops"]:
        if op[0] == "add":
            add(op[1])
        elif op[0] == "kill":
            if len(live) > 1:
                v = live.pop(op[1] % len(live))
                dead.append(v)
                if isinstance(v, A.BaseAgent):
                    v.die()
                else:
                    env.schedule.remove(v)
        elif op[0] == "set":
            if live:
                setattr(live[op[1] % len(live)], op[2], op[3])
        else:
            run_query(env, live, op[1], obs, dead)


def matches(a, q, state):
    ids = None
    if q["ids"] is not None:
        ids = q["ids"] if isinstance(q["ids"], list) else [q["ids"]]
    if q["pos"]:
        ids = (ids or []) + q["pos"]
    if ids is not None and a.unique_id not in ids:
        return False
    if q["cls"] is not None:
        kind, c = q["cls"]
        cl = (CLS[c],) if kind == "type" else tuple(CLS[k] for k in c) if kind == "list" else (NAMES[c],)
        if not isinstance(a, cl):
            return False
    if q["sid"] is not None:
        want = q["sid"] if isinstance(q["sid"], (list, tuple)) else [q["sid"]]
        if getattr(a, "state_id", None) not in want:
            return False
    for k, v in state.items():
        vs = v if isinstance(v, list) else [v]
        if not any(getattr(a, k, None) == x for x in vs):
            return False
    return True


def run_query(env, live, q, obs, dead=()):
    by = q["by"]
    asker = None
    if by != "model":
        asker = live[by % len(live)]
        if not isinstance(asker, A.BaseAgent):
            asker = None
    q = dict(q)
    if asker is not None:
        q["pos"] = None
    state = dict(q["state"] or {})
    state.update(q["kw"])
    want = [a for a in live if matches(a, q, state)]

    def args():
        kw = dict(copy.deepcopy(q["kw"]))
        if q["ids"] is not None:
            kw["unique_id"] = copy.deepcopy(q["ids"])
        if q["cls"] is not None:
            kind, c = q["cls"]
            kw["agent_class"] = CLS[c] if kind == "type" else [CLS[k] for k in c] if kind == "list" else c
        if q["sid"] is not None:
            kw["state_id"] = copy.deepcopy(q["sid"])
        if q["state"] is not None:
            kw["state"] = copy.deepcopy(q["state"])
        if q["limit"] is not None:
            kw["limit"] = q["limit"]
        return (q["pos"] or []), kw

    size = len(want) if q["limit"] is None else min(q["limit"], len(want))

    def verify(got, what):
        got = list(got)
        require(len({id(a) for a in got}) == len(got), "{} repeated an agent", what)
        extra = [a for a in got if not any(a is b for b in want)]
        require(not extra, "{} for {} returned {} which do not match", what, q, extra)
        same(len(got), size, "number of agents from %s for %s" % (what, q))

    before = [(a.unique_id, a.x, getattr(a, "y", None), a.z, getattr(a, "state_id", None)) for a in live]
    for what, f in (("model search", lambda p, kw: env.get_agents(*p, **kw)),
                    ("model filter", lambda p, kw: env.get_agents.filter(*p, **kw))):
        p, kw = args()
        keep = copy.deepcopy({k: v for k, v in kw.items() if k != "agent_class"})
        verify(f(p, kw), what)
        same({k: v for k, v in kw.items() if k != "agent_class"}, keep, "arguments after the search")
    p, kw = args()
    same(env.count_agents(*p, **kw), size, "count of agents in the model")
    p, kw = args()
    if size:
        one = env.agent(*p, **kw)
        require(any(one is a for a in want), "picked an agent that does not match")
    else:
        try:
            one = env.agent(*p, **kw)
        except Exception:
            pass
        else:
            require(one is None, "picked {} although nothing matches", one)
    if asker is not None:
        for what, f in (("agent search", asker.get_agents), ("agent iteration", asker.iter_agents)):
            _, kw = args()
            verify(f(**kw), what)
        _, kw = args()
        same(asker.count_agents(**kw), size, "count of agents by an agent")
        obs.tag("by_agent")
    view = env.get_agents
    same(sorted(a.unique_id for a in view), sorted(a.unique_id for a in live), "iteration over the agents")
    same(sorted(a.unique_id for a in env), sorted(a.unique_id for a in live), "iteration over the model")
    same(len(view), len(live), "number of agents")
    ids = {a.unique_id: a for a in live}
    for i in range(-1, max(ids) + 2):
        same(i in view, i in ids, "membership of id %d" % i)
    for odd in ["0", "", None, 0.5, (0,)] + [getattr(a, "name", "nobody") for a in live]:
        require(odd not in view, "{!r}, which is not an id, is among the agents", odd)
    for a in live:
        require(a in view, "the agent {} is not among the agents", a.unique_id)
    for a in dead:
        require(a not in view, "the agent {}, which died, is among the agents", a.unique_id)
    for i in range(-1, max(ids) + 2):
        if i in ids:
            require(view[i] is ids[i], "lookup of id {} gave {}", i, view[i])
    after = [(a.unique_id, a.x, getattr(a, "y", None), a.z, getattr(a, "state_id", None)) for a in live]
    same(after, before, "agents after the search")
    ncrit = sum(q[k] is not None for k in ("ids", "cls", "sid")) + len(state)
    obs.tag("crit_%d" % min(ncrit, 4))
    obs.tag("limited", int(q["limit"] is not None and q["limit"] < len(want)))
    obs.hit(ncrit >= 2 and 0 < len(want) < len(live))


TARGETS = [Target("search", cases, check, quick=4000, rule="some query with at least two criteria matched some agents but not all")]
