"""A scripted population driven through the real schedulers, with an online reference monitor.

spec of an agent: {"kind", "when", "acts": [{"w", "form", "ops": [...]}], "end"}
ops: ["spawn", ix], ["kill", ix, how], ["selfkill"], ["stop"]
The monitor knows, for every agent, the only instant at which it may be activated next."""
from vf.lib import *

SOIL_KINDS = ["soil", "gen", "async", "net", "fsm", "fsmgen", "agent", "evented", "fsmnet"]
NETKINDS = {"net", "agent", "fsmnet"}


class World:
    def __init__(self, case, limit=3000):
        self.case = case
        self.specs = case["agents"]
        self.log = []            # (agent, k, instant)
        self.pending = {}        # agent -> (instant, sequence)
        self.seq = 0
        self.made = {}           # agent -> creation instant
        self.agents = {}         # agent -> object
        self.killed = {}         # agent -> instant
        self.limit = limit
        self.interval = float(case["interval"]) if case.get("interval") is not None else 1.0
        self.ordered = case["sched"] == "ordered"
        self.stopped_at = None
        self.kinds = self._kinds()

    # ---- agents
    def _kinds(self):
        w = self

        class Plain(A.BaseAgent):
            def step(self):
                return w.act(self)

        class Gen(A.BaseAgent):
            def step(self):
                while True:
                    r = w.act(self)
                    if self.done:
                        return r
                    yield r

        class Async(A.BaseAgent):
            async def step(self):
                while True:
                    r = w.act(self)
                    if self.done:
                        return r
                    if r is None:
                        r = w.interval
                    await self.delay(float(r))

        class Net(A.NetworkAgent):
            def step(self):
                return w.act(self)

        class Fsm(A.FSM):
            @A.default_state
            @A.state
            def only(self):
                return w.act(self)

        class FsmGen(A.FSM):
            @A.default_state
            @A.state
            def only(self):
                while True:
                    r = w.act(self)
                    if self.done:
                        return r
                    yield r

        class Full(A.Agent):
            @A.default_state
            @A.state
            def first(self):
                r = w.act(self)
                if self.done or r is None:
                    return r
                return self.second.delay(float(r))

            @A.state
            def second(self):
                r = w.act(self)
                if self.done or r is None:
                    return r
                return self.first, r

        class Evented(A.EventedAgent):
            def step(self):
                return w.act(self)

        class FsmNet(A.FSM, A.NetworkAgent):
            @A.default_state
            @A.state
            def only(self):
                return w.act(self)

        class Mesa(mesa.Agent):
            def step(self):
                return w.act(self)

        return {"soil": Plain, "gen": Gen, "async": Async, "net": Net, "fsm": Fsm, "fsmgen": FsmGen,
                "agent": Full, "evented": Evented, "fsmnet": FsmNet, "mesa": Mesa}

    # ---- operations
    def push(self, ix, t):
        self.pending[ix] = (float(t), self.seq)
        self.seq += 1

    def create(self, ix):
        if ix in self.made:
            return
        spec = self.specs[ix]
        m = self.model
        agent = self.kinds[spec["kind"]](unique_id=m.next_id(), model=m)
        agent.ix, agent.count, agent.done = ix, 0, False
        self.agents[ix] = agent
        self.made[ix] = float(m.schedule.time)
        when = spec.get("when")
        self.push(ix, m.schedule.time + (when or 0))
        if when is None:
            m.schedule.add(agent)
        else:
            m.schedule.add(agent, when=m.schedule.time + when)

    def kill(self, ix, how):
        if ix not in self.agents:
            return
        agent = self.agents[ix]
        if how == "remove" or isinstance(agent, mesa.Agent) and not isinstance(agent, A.BaseAgent):
            if ix in self.killed:
                return
            self.model.schedule.remove(agent)
        elif how == "stay" and isinstance(agent, A.NetworkAgent):
            agent.die(remove=False)
        else:
            agent.die()
        self.bury(ix)

    def bury(self, ix):
        self.killed.setdefault(ix, float(self.model.schedule.time))
        self.pending.pop(ix, None)

    def act(self, agent):
        ix, k = agent.ix, agent.count
        spec = self.specs[ix]
        now = self.model.schedule.time
        self.log.append((ix, k, float(now)))
        if len(self.log) > self.limit:
            raise Violation("more than %d activations" % self.limit)
        require(ix not in self.killed, "agent {} ({}) was activated at {} after its death at {}", ix, spec["kind"], now, self.killed.get(ix))
        mine = self.pending.pop(ix, None)
        require(mine is not None, "agent {} ({}) was activated at {} although it had finished", ix, spec["kind"], now)
        require(mine[0] == now, "agent {} ({}) was activated at {} instead of {}", ix, spec["kind"], now, mine[0])
        if self.pending:
            first = min(self.pending.values())
            require(first[0] >= mine[0], "agent {} due at {} was activated before another one due at {}", ix, mine[0], first[0])
            if self.ordered:
                require(mine < first, "agent {} ran before one scheduled earlier for the same instant", ix)
        agent.count += 1
        last = k >= len(spec["acts"])
        a = spec["acts"][k] if not last else {"w": INF, "form": "num", "ops": spec.get("endops", [])}
        ret = "unset"
        for op in a.get("ops", []):
            if op[0] == "spawn":
                self.create(op[1] % len(self.specs))
            elif op[0] == "kill":
                v = op[1] % len(self.specs)
                if v != ix:
                    self.kill(v, op[2])
            elif op[0] == "selfkill":
                if isinstance(agent, A.BaseAgent) and ix not in self.killed:
                    ret_die = agent.die()
                    self.bury(ix)
                    if op[1] == "return":
                        ret = ret_die
                        agent.done = True
                elif not isinstance(agent, A.BaseAgent):
                    self.kill(ix, "remove")
            elif op[0] == "stop":
                self.model.running = False
                if self.stopped_at is None:
                    self.stopped_at = float(now)
        if ret != "unset":
            return ret
        if last:
            agent.done = True
            if spec["end"] == "die" and isinstance(agent, A.BaseAgent):
                if ix in self.killed:
                    return INF
                r = agent.die()
                self.bury(ix)
                return r
            return INF
        w = a["w"]
        if ix not in self.killed:
            self.push(ix, now + (self.interval if w is None else float(w)))
        if w is None or not isinstance(agent, A.BaseAgent):
            return w
        if a["form"] == "delay":
            return agent.delay(w)
        if a["form"] == "at":
            return agent.at(now + w)
        return w

    # ---- oracle
    def full_times(self, ix):
        """Instants of an agent that is never killed."""
        t = self.made[ix] + float(self.specs[ix].get("when") or 0)
        out = [t]
        for a in self.specs[ix]["acts"]:
            t = t + (self.interval if a["w"] is None else float(a["w"]))
            out.append(t)
        return out

    def got(self):
        got = {}
        for ix, k, t in self.log:
            got.setdefault(ix, []).append(t)
        return got

    def host(self, base=None):
        """An environment class whose schedule runs the population (created in init)."""
        w = self
        sched = SCHEDULERS()[self.case["sched"]]

        class Host(base or E.Environment):
            schedule_class = sched
            steps_taken = 0

            def init(self):
                w.model = self
                for i in w.case["initial"]:
                    w.create(i)

            def step(self):
                self.steps_taken += 1
                if self.steps_taken > w.limit:
                    raise Violation("the model was stepped more than %d times" % w.limit)
                super().step()
        if self.case.get("interval") is not None:
            Host.default_interval = self.case["interval"]
        return Host


def acts(ops=None, max_size=7):
    return st.lists(fixed(w=opt_waits, form=weighted(("num", 5), ("delay", 2), ("at", 2)),
                          ops=ops if ops is not None else st.just([])), max_size=max_size)
