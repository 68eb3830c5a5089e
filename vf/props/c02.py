"""C02: runs stop exactly at their limits, or when nothing is left to do."""
from vf.world import *
from vf.core import Target

TECHNIQUE = "scripted populations under generated limits, activations compared with the limit-free schedule cut at the limit"
ASSUMPTIONS = ["waits are positive binary fractions; in runs limited by steps some agent is due at the start and no agent is added or killed by others"]


@st.composite
def limits(draw):
    n = draw(st.integers(1, 5))
    specs = draw(st.lists(fixed(kind=st.sampled_from(SOIL_KINDS), when=st.one_of(st.none(), st.none(), offsets),
                                acts=acts(), end=weighted(("inf", 2), ("die", 1))), min_size=n, max_size=n))
    mode = draw(weighted(("time", 4), ("steps", 3), ("both", 3), ("none", 2), ("stop", 2), ("stop_time", 1)))
    case = {"sched": draw(sched_names), "interval": draw(st.one_of(st.none(), st.just(0.5), st.just(2))),
            "agents": specs, "initial": list(range(n)), "mode": mode, "T": None, "N": None}
    if mode in ("steps", "both"):
        specs[0]["when"] = None
        case["N"] = draw(st.integers(0, 12))
    if mode in ("time", "both", "stop_time"):
        # relative to an event of some agent: exactly on it, just before, just after, or anywhere
        case["T"] = draw(st.one_of(
            st.tuples(st.integers(0, n - 1), st.integers(0, 7), st.sampled_from([0, 0, -2 ** -10, 2 ** -10, -1e-9, 1e-9])).map(list),
            st.integers(0, 200).map(lambda k: k / 8), st.sampled_from([0, 1, 10, 2 ** 31])))
    if mode.startswith("stop"):
        i = draw(st.integers(0, n - 1))
        case["early"] = draw(weighted((False, 3), (True, 1)))
        if specs[i]["acts"]:
            draw(st.sampled_from(specs[i]["acts"]))["ops"] = [["stop"]]
    return case


def check_limits(case, obs):
    w = World(case)
    w.model = None
    free = {}
    for i, s in enumerate(case["agents"]):
        w.made[i] = 0.0
        free[i] = w.full_times(i)
    w.made.clear()
    Tm = case["T"]
    if isinstance(Tm, list):
        ts = free[Tm[0]]
        Tm = max(0.0, ts[Tm[1] % len(ts)] + Tm[2])
    N = case["N"]
    Host = w.host()
    if case.get("early"):
        class Host(Host):
            """Finished before it begins."""
            def init(self):
                super().init()
                self.running = False
    kw = {}
    if Tm is not None:
        kw["max_time"] = Tm
    if N is not None:
        kw["max_steps"] = N
    envs = S.Simulation(model=Host, name="h", dump=False, exporters=[], level=50, **kw).run()
    same(len(envs), 1, "number of models returned")
    instants = sorted({t for ts in free.values() for t in ts})
    cut = INF            # activations strictly before
    if Tm is not None:
        cut = float(Tm)
    if N is not None:
        cut = min(cut, instants[N] if N < len(instants) else INF)
    stop = [t for i, s in enumerate(case["agents"]) for a, t in zip(s["acts"], free[i]) if a["ops"]]
    if stop:
        after = [t for t in instants if t > min(stop)]
        cut = min(cut, after[0] if after else INF)
    if case.get("early"):
        cut = -1
        obs.tag("early")
    got = w.got()
    for i in free:
        same(got.get(i, []), [t for t in free[i] if t < cut], "activations of agent %d with limits time=%s steps=%s" % (i, Tm, N))
    if N is not None:
        reached = len([t for t in instants if t < cut])
        same(envs[0].schedule.steps, min(N, reached), "steps performed")
    if Tm is not None and cut == float(Tm):
        require(envs[0].now >= Tm, "stopped at {} before the limit {}", envs[0].now, Tm)
    obs.tag(case["mode"])
    obs.tag("limit_on_event", int(Tm in instants if Tm is not None else False))
    obs.hit(sum(map(len, free.values())) > len(w.log) > 0 or case["mode"] == "none")


@st.composite
def drains(draw):
    """Populations that end in unusual ways: killed by others, killed while waiting, all at once."""
    n = draw(st.integers(1, 6))
    op = st.one_of(
        st.tuples(st.just("kill"), st.integers(0, n - 1), st.sampled_from(["die", "remove", "stay"])).map(list),
        st.tuples(st.just("spawn"), st.integers(0, n - 1)).map(list),
        st.just(["selfkill", "return"]), st.just(["selfkill", "carry on"]))
    specs = draw(st.lists(fixed(kind=st.sampled_from(SOIL_KINDS + ["mesa"]), when=st.one_of(st.none(), offsets),
                                acts=acts(weighted(([], 3), ("op", 1)).flatmap(lambda x: st.lists(op, min_size=1, max_size=3) if x else st.just([])), 5),
                                end=weighted(("inf", 2), ("die", 1))), min_size=n, max_size=n))
    return {"sched": draw(sched_names), "interval": draw(st.one_of(st.none(), st.just(0.5))), "agents": specs,
            "initial": list(range(draw(st.integers(1, n)))), "max_steps": draw(st.sampled_from([None, 100000]))}


def check_drain(case, obs):
    w = World(case, limit=1500)
    Host = w.host()
    kw = {"max_steps": case["max_steps"]} if case["max_steps"] else {}
    envs = S.Simulation(model=Host, name="h", dump=False, exporters=[], level=50, **kw).run()
    require(not w.pending, "the run ended with pending activations: {}", w.pending)
    obs.tag("killed", int(bool(w.killed)))
    obs.hit(len(w.log) > 2)


# ---- far limits
class Tick(A.BaseAgent):
    period = 1
    n = 0

    def step(self):
        self.n += 1
        if self.n > 9000:
            raise Runaway()
        return self.period


def far():
    return fixed(limit=st.sampled_from([99, 255, 256, 999, 1000, 1001, 1025, 2500]), on=st.sampled_from(["time", "steps", "both"]), period=st.sampled_from([1, 0.5, 2]), sched=sched_names)


def check_far(case, obs):
    class Host(E.BaseEnvironment):
        schedule_class = SCHEDULERS()[case["sched"]] if case["sched"] != "pq_fixed" else T.PQueueActivation

        def init(self):
            self.a = self.add_agent(Tick, period=case["period"])

    L, p = case["limit"], case["period"]
    kw = {"time": dict(max_time=L), "steps": dict(max_steps=L), "both": dict(max_time=L * 3, max_steps=L)}[case["on"]]
    with silent():
        m = S.Simulation(model=Host, name="far", dump=False, exporters=[], level=50, **kw).run()[0]
    same(m.a.n, math.ceil(L / p) if case["on"] == "time" else L, "activations with limits %s and one every %s" % (kw, p))
    obs.hit()


TARGETS = [
    Target("far", far, check_far, quick=40, rule="always"),
    Target("limits", limits, check_limits, quick=3200,
           rule="the limit cut the schedule strictly inside (some activations happened, some did not), or there was no limit"),
    Target("drain", drains, check_drain, quick=1600, rule="more than two activations before the population ran out"),
]
