"""C01: every agent is activated at exactly the instants it asked for.

Case: a forest of scripted agents. Each script lists, per activation, the wait returned
(in several notations) and the agents created during it. The oracle computes every
agent's activation instants independently of the others from the script alone; an online
monitor checks the order of activations (first in, first out for the ordered scheduler)."""
import random
from vf.lib import *
from vf.core import Target

ASSUMPTIONS = [
    "waits are positive; the instant of an activation is the float sum of the previous one and the wait; absolute instants are only used with binary fractions (exact arithmetic)",
    "agents are never added for an instant in the past",
]

def agent_spec():
    base = fixed(
        kind=weighted(("soil", 6), ("net", 2), ("fsm", 2), ("mesa", 2)),
        when=st.one_of(st.none(), st.none(), offsets),
        acts=st.lists(fixed(w=opt_waits, form=weighted(("num", 5), ("delay", 2), ("at", 2))), min_size=0, max_size=7),
        end=weighted(("inf", 3), ("die", 2), ("delayinf", 1)),
    )
    return base


@st.composite
def cases(draw):
    n = draw(st.integers(1, 6))
    agents = draw(st.lists(agent_spec(), min_size=n, max_size=n))
    # who creates whom: parent is None (initial), "late" (between steps) or an earlier agent
    parents = [None]
    for i in range(1, n):
        parents.append(draw(st.one_of(st.none(), st.none(), st.just("late"), st.integers(0, i - 1))))
    spots = [draw(st.integers(0, 6)) for _ in range(n)]
    return {"sched": draw(sched_names), "host": draw(weighted(("soil", 5), ("mesa", 1))), "given": draw(weighted((None, 3), ("class", 1), ("object", 1))),
            "interval": draw(st.one_of(st.none(), st.sampled_from([1, 2, 0.5, 3.0, 0.125]))), "derived": draw(st.booleans()),
            "agents": agents, "parents": parents, "spots": spots,
            "driver": draw(weighted(("model", 3), ("schedule", 1)))}


def build(case):
    """Returns (model, log, spawn function)."""
    specs = case["agents"]
    limit = 2000 + sum(len(s["acts"]) + 1 for s in specs)
    log = []
    made = {}
    pending = {}          # agent -> (instant, order in which it was scheduled)
    seq = iter(range(10 ** 9))
    ordered = case["sched"] == "ordered"
    interval = float(case["interval"]) if case["interval"] is not None else 1.0

    children = {}
    for i, p in enumerate(case["parents"]):
        if isinstance(p, int):
            children.setdefault(p, []).append(i)

    class Script:
        """Mixed into every agent kind."""
        def setup(self, ix):
            self.ix = ix
            self.count = 0

        def act(self):
            spec = specs[self.ix]
            k = self.count
            self.count += 1
            now = self.model.schedule.time
            log.append((self.ix, k, now))
            mine = pending.pop(self.ix, None)
            require(mine is not None, "agent {} activated at {} although nothing was pending for it", self.ix, now)
            if pending:
                first = min(pending.values())
                require(first[0] >= mine[0], "agent {} due at {} activated before one due at {}", self.ix, mine[0], first[0])
                if ordered:
                    require(mine < first, "agent {} ran before one that was scheduled earlier for the same instant", self.ix)
            if len(log) > limit:
                raise Violation("more than %d activations for %d scripted ones" % (limit, limit - 2000))
            for c in children.get(self.ix, []):
                # beyond the end of the script: create it in the last activation
                if k == min(case["spots"][c], len(spec["acts"])):
                    create(c, self.model)
            if k >= len(spec["acts"]):
                if spec["end"] == "die" and hasattr(self, "die"):
                    return self.die()
                if spec["end"] == "delayinf" and hasattr(self, "delay"):
                    return self.delay(INF)
                return INF
            a = spec["acts"][k]
            w = a["w"]
            pending[self.ix] = (now + (interval if w is None else float(w)), next(seq))
            if w is None or isinstance(self, MesaScript):
                return w
            if a["form"] == "delay":
                return self.delay(w)
            if a["form"] == "at":
                return self.at(now + w)
            return w

    class SoilScript(A.BaseAgent):
        def step(self):
            return Script.act(self)

    class NetScript(A.NetworkAgent):
        def step(self):
            return Script.act(self)

    class FsmScript(A.FSM):
        @A.default_state
        @A.state
        def only(self):
            return Script.act(self)

    class MesaScript(mesa.Agent):
        def step(self):
            return Script.act(self)

    kinds = {"soil": SoilScript, "net": NetScript, "fsm": FsmScript, "mesa": MesaScript}

    def create(ix, model):
        spec = specs[ix]
        kind = spec["kind"]
        if case["host"] == "mesa":
            kind = "mesa"
        agent = kinds[kind](unique_id=model.next_id(), model=model)
        Script.setup(agent, ix)
        made[ix] = model.schedule.time
        pending[ix] = (float(model.schedule.time) + float(spec["when"] or 0), next(seq))
        if spec["when"] is None:
            model.schedule.add(agent)
        else:
            model.schedule.add(agent, when=model.schedule.time + spec["when"])
        return agent

    sched = SCHEDULERS()[case["sched"]]
    if case["host"] == "soil":
        class Host(E.Environment):
            if not case.get("given"):
                schedule_class = sched
    else:
        class Host(mesa.Model):
            def __init__(self):
                super().__init__()
                self.schedule = sched(self)

            def step(self):
                self.schedule.step()
    if case["interval"] is not None:
        Host.default_interval = case["interval"]
    if case.get("derived"):
        class Host(Host):
            """What the parent class sets is inherited."""
    if case["host"] == "soil" and case.get("given") == "class":
        model = Host(schedule_class=sched)
    elif case["host"] == "soil" and case.get("given") == "object":
        first = Host()
        s = sched(first)
        model = Host(schedule=s)
        require(model.schedule is s, "the scheduler that was given is not used")
        s.model = model
    else:
        model = Host()
    return model, log, made, create


def expected_times(case, made):
    """Instants of each created agent, from its creation time and its script."""
    interval = float(case["interval"]) if case["interval"] is not None else 1.0
    out = {}
    for ix, t0 in made.items():
        spec = case["agents"][ix]
        t = float(t0) + float(spec["when"] or 0)
        times = [t]
        for a in spec["acts"]:
            t = t + (interval if a["w"] is None else float(a["w"]))
            times.append(t)
        out[ix] = times
    return out


def check(case, obs):
    model, log, made, create = build(case)
    late = sorted((case["spots"][i], i) for i, p in enumerate(case["parents"]) if p == "late")
    for i, p in enumerate(case["parents"]):
        if p is None:
            create(i, model)
    step = model.step if case["driver"] == "model" else model.schedule.step
    budget = 40 + 4 * sum(len(s["acts"]) + 2 for s in case["agents"])
    n = idle = 0
    last_clock = model.schedule.time
    while n < budget and idle < 4:
        while late and late[0][0] <= n and model.schedule.time != INF:
            _, i = late.pop(0)
            create(i, model)
            obs.tag("late_add")
        before = len(log)
        step()
        n += 1
        clock = model.schedule.time
        require(clock >= last_clock, "time went backwards from {} to {}", last_clock, clock)
        last_clock = clock
        # nothing may be overdue
        exp = expected_times(case, made)
        done = {}
        for ix, k, t in log:
            done[ix] = done.get(ix, 0) + 1
        for ix, times in exp.items():
            k = done.get(ix, 0)
            if k < len(times):
                require(times[k] >= clock, "agent {} should have been activated at {} but time is already {}", ix, times[k], clock)
        idle = idle + 1 if len(log) == before else 0

    exp = expected_times(case, made)
    got = {}
    for ix, k, t in log:
        got.setdefault(ix, []).append(float(t))
    for ix in exp:
        same(got.get(ix, []), exp[ix], "activation times of agent %d" % ix)
    times = [t for _, _, t in log]
    require(times == sorted(times), "activations are not in chronological order: {}", log)

    from collections import Counter
    c = Counter(times)
    obs.tag("coincidence", int(max(c.values(), default=0) > 1))
    obs.tag("spawned", int(any(isinstance(p, int) for p in case["parents"])))
    obs.tag("start_time", int(any(s["when"] for s in case["agents"])))
    obs.tag(case["sched"])
    obs.hit(len(made) >= 2 and len(log) >= 5)


# ---- large populations and long scripts: the case only holds the parameters of the scripts
def crowd_cases():
    return fixed(seed=st.integers(0, 2 ** 32), n=st.one_of(*[st.integers(8, 60)] * 8, *[st.integers(80, 160)] * 4, st.integers(700, 1200)), spread=weighted((None, 2), (0.125, 1), (0.5, 1)), acts=st.integers(1, 14), pool=st.lists(st.one_of(any_waits, st.none(), st.sampled_from([97.5, 1000, 2 ** 20, 1 / 1024])), min_size=1, max_size=8),
                 starts=st.lists(offsets, max_size=4), sched=sched_names, interval=st.one_of(st.none(), st.sampled_from([2, 0.5])), driver=st.sampled_from(["model", "schedule"]))


def check_crowd(case, obs):
    r = random.Random(case["seed"])
    n = case["n"]
    if n > 200:
        case = dict(case, acts=min(case["acts"], 2))
        obs.tag("more than 500 agents")
    agents, parents = [], []
    for i in range(n):
        agents.append({"kind": r.choice(["soil", "soil", "net", "fsm", "mesa"]), "when": r.choice([None] + case["starts"]) if not case.get("spread") else r.randrange(4 * n) * case["spread"], "end": r.choice(["inf", "die", "delayinf"]),
                       "acts": [{"w": r.choice(case["pool"]), "form": r.choice(["num", "delay", "at"])} for _ in range(r.randrange(case["acts"] + 1))]})
        parents.append(r.choice([None, None, "late", r.randrange(i)]) if i else None)
    check({"sched": case["sched"], "host": "soil", "interval": case["interval"], "agents": agents, "parents": parents, "spots": [r.randrange(case["acts"] + 1) for _ in range(n)], "driver": case["driver"]}, obs)


# ---- instants that are very close, but different
CLOSE = [0.1, 0.2, 0.3, 0.7, 1 / 3, 1.1, 1, 1, 1 + 1e-6, 1 + 1e-9, 1 + 2 ** -40, 1 - 1e-7, 0.5, 0.5 + 1e-5, 1e-3, 1e-7, 1e-10]


def close_cases():
    return fixed(seed=st.integers(0, 2 ** 32), n=st.integers(2, 9), acts=st.integers(1, 6), pool=st.lists(st.sampled_from(CLOSE), min_size=1, max_size=5),
                 starts=st.lists(st.sampled_from([0, 0, 1e-6, 1e-9, 0.1, 0.3]), max_size=4), sched=sched_names, interval=st.one_of(st.none(), st.sampled_from([0.1, 1 / 3])), driver=st.sampled_from(["model", "schedule"]))


def check_close(case, obs):
    r = random.Random(case["seed"])
    agents, parents = [], []
    for i in range(case["n"]):
        agents.append({"kind": r.choice(["soil", "soil", "net", "fsm", "mesa"]), "when": r.choice([None] + case["starts"]), "end": r.choice(["inf", "die"]),
                       "acts": [{"w": r.choice(case["pool"]), "form": r.choice(["num", "delay"])} for _ in range(r.randrange(case["acts"] + 1))]})
        parents.append(r.choice([None, None, "late", r.randrange(i)]) if i else None)
    check({"sched": case["sched"], "host": "soil", "interval": case["interval"], "agents": agents, "parents": parents, "spots": [r.randrange(case["acts"] + 1) for _ in range(case["n"])], "driver": case["driver"]}, obs)


TARGETS = [
    Target("close", close_cases, check_close, quick=600, rule="at least two agents were created and at least five activations happened"),
    Target("crowd", crowd_cases, check_crowd, quick=240, rule="at least two agents were created and at least five activations happened"),
    Target("schedule", cases, check, quick=4000,
           rule="at least two agents were created and at least five activations happened"),
]
