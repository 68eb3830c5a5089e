"""C09: messages are delivered exactly once, in order, unless they expire.

A driver agent performs generated operations at generated instants; every agent's inbox is mirrored by a
queue of the messages sent to it, and every call of a handler is checked against the head of that queue."""
from vf.lib import *
from vf.core import Target

TECHNIQUE = "stateful model-based histories of sends, broadcasts, processing and deaths against mirrored queues"
ASSUMPTIONS = ["a message is expired when its expiration lies strictly before the current time; messages sent from a handler to the agent that is processing "
               "may be delivered in that round or in the next one"]

KINDS = ["ev", "ev", "ev", "full", "base", "mesa", "net"]
pick = st.integers(0, 20)
plain = st.sampled_from([0, 1, "", "m", None, False, [], [1, 2]])
crits = st.sampled_from([{}, {}, {}, {"g": 0}, {"g": 1}, {"g": [0, 1]}, {"cls": "ev"}, {"cls": "full"}, {"cls": "base"}, {"limit": 2}])
expiry = st.one_of(st.none(), st.none(), st.tuples(st.just("ttl"), st.sampled_from([0, 0.5, 1, 2, 3])).map(list),
                   st.tuples(st.just("at"), st.sampled_from([-1, 0, 0.5, 1, 2])).map(list))


def message(depth=2):
    react = st.just([])
    if depth:
        sub = st.deferred(lambda: message(depth - 1))
        act = st.one_of(st.tuples(st.just("tell"), pick, sub).map(list), st.just(None).flatmap(lambda _: st.tuples(st.just("self"), sub).map(list)),
                        st.tuples(st.just("bcast"), sub, crits, expiry).map(list), st.tuples(st.just("process"), pick).map(list))
        react = st.one_of(st.just([]), st.just([]), st.just([]), st.lists(act, min_size=1, max_size=2))
    return fixed(v=plain, react=react, raw=st.booleans())


def cases():
    op = st.one_of(
        st.tuples(st.just("tell"), pick, st.one_of(st.none(), pick), message()).map(list),
        st.tuples(st.just("tell"), pick, st.one_of(st.none(), pick), message()).map(list),
        st.tuples(st.just("bcast"), st.one_of(st.none(), pick), message(), crits, expiry).map(list),
        st.tuples(st.just("process"), pick).map(list), st.tuples(st.just("process"), pick).map(list), st.tuples(st.just("process"), pick).map(list),
        st.tuples(st.just("kill"), pick).map(list), st.tuples(st.just("burst"), pick, st.sampled_from([3, 40, 70])).map(list))
    step = st.tuples(st.sampled_from([0.5, 1, 1, 2, 3]), st.lists(op, max_size=5)).map(list)
    hello = weighted((None, 4), (["self", {"v": "hi", "react": [], "raw": True}], 1), (["one", {"v": 1, "react": [], "raw": False}], 1), (["all", {"v": "x", "react": [], "raw": False}], 1))
    return fixed(agents=st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 1), hello).map(list), min_size=2, max_size=7),
                 crowd=weighted((0, 9), (1, 2), (130, 1)), sched=sched_names, script=st.lists(step, min_size=1, max_size=8))


class Payload:
    """Compared by identity, so that a copy or a mix-up shows."""
    def __init__(self, spec):
        self.spec = spec
        self.obj = spec["v"] if spec["raw"] and not spec["react"] else self


def check(case, obs):
    queues = {}            # id(agent) -> list of (payload, sender, expiration)
    processing = []        # stack of agents
    count = [0, 0]
    agents, env = [], None

    def send(a, payload, sender, expiration):
        if id(a) in queues:
            queues[id(a)].append((payload, sender, expiration))

    def handler(self, msg, sender=None):
        count[0] += 1
        require(processing and processing[-1] is self, "a handler ran while {} was processing", processing and processing[-1])
        q = queues[id(self)]
        while q and q[0][2] is not None and q[0][2] < self.now:
            q.pop(0)
            obs.tag("expired")
        require(q, "{} at {}: unexpected message {}", self, self.now, getattr(msg, "spec", msg))
        want, wsender, exp = q.pop(0)
        require(msg is want.obj, "{} at {}: received {} instead of {}", self, self.now, getattr(msg, "spec", msg), want.spec)
        require(sender is wsender, "{} at {}: sender {} instead of {}", self, self.now, sender, wsender)
        obs.tag("delivered")
        if exp is not None:
            obs.tag("delivered_in_time")
        if len(processing) > 1:
            obs.tag("nested")
        for r in want.spec["react"]:
            count[1] += 1
            if count[1] > (25 if case["crowd"] > 1 else 2000):      # broadcasts that answer broadcasts multiply
                break
            obs.tag("reaction")
            perform(r, self)

    def hello(self):
        """Agents may send messages from their init, to themselves and to those created before them."""
        how, self.hello = self.hello, None
        if id(self) not in queues:
            queues[id(self)] = []
        if how is None:
            return
        obs.tag("sent_in_init")
        p = Payload(how[1])
        if how[0] == "self":
            send(self, p, self, None)
            self.tell(p.obj, sender=self)
        elif how[0] == "one":
            earlier = [a for a in agents if id(a) in queues] or [self]
            send(earlier[0], p, self, None)
            earlier[0].tell(p.obj, sender=self)
        else:
            for a in agents:
                send(a, p, self, None)
            self.model.broadcast(p.obj, sender=self)

    class Ev(A.EventedAgent):
        on_receive = handler
        init = hello

        def step(self):
            pass

    class Full(A.Agent):
        on_receive = handler
        init = hello

        @A.default_state
        @A.state
        def s(self):
            pass

    class Base(A.BaseAgent):
        def step(self):
            pass

    class Net(A.NetworkAgent):
        def step(self):
            pass

    class Mesa(mesa.Agent):
        def __init__(self, unique_id, model, g=None):
            super().__init__(unique_id, model)
            self.g = g

        def step(self):
            pass

    CL = {"ev": Ev, "full": Full, "base": Base, "net": Net, "mesa": Mesa}

    def process(a):
        start = list(queues[id(a)])
        processing.append(a)
        a.process_messages()
        processing.pop()
        left = queues[id(a)]
        now = env.now
        for m in start:
            if any(m is l for l in left):
                require(m[2] is not None and m[2] < now, "{}: message {} was not delivered when processing at {}", a, m[0].spec, now)
                left[:] = [l for l in left if l is not m]
                obs.tag("expired")

    def perform(op, by):
        kind = op[0]
        hear = [a for a in agents if id(a) in queues]
        if kind == "tell":
            if not hear:
                return
            a = hear[op[1] % len(hear)]
            if len(op) == 4:
                sender = None if op[2] is None else agents[op[2] % len(agents)]
                p = Payload(op[3])
            else:
                sender, p = by, Payload(op[2])
            send(a, p, sender, None)
            if sender is None:
                a.tell(p.obj)
            else:
                a.tell(p.obj, sender=sender)
        elif kind == "burst":
            for k in range(op[2]):
                perform(["tell", op[1], None, {"v": k, "react": [], "raw": False}], by)
        elif kind == "self":
            p = Payload(op[1])
            send(by, p, by, None)
            by.tell(p.obj, sender=by)
        elif kind == "bcast":
            if len(op) == 5:
                _, sender, spec, crit, exp = op
                sender = None if sender is None else agents[sender % len(agents)]
            else:
                _, spec, crit, exp = op
                sender = by
            p = Payload(spec)
            kw = {k: v for k, v in crit.items() if k in ("g", "limit")}
            pool = [a for a in env.schedule.agents if "g" not in crit or getattr(a, "g", None) in (crit["g"] if isinstance(crit["g"], list) else [crit["g"]])]
            if "cls" in crit:
                kw["agent_class"] = CL[crit["cls"]]
                pool = [a for a in pool if isinstance(a, CL[crit["cls"]])]
            e = None
            if exp is not None:
                if exp[0] == "ttl":
                    e, kw["ttl"] = env.now + exp[1], exp[1]
                else:
                    e = kw["expiration"] = env.now + exp[1]
            if "limit" in crit:
                if sender is not None:
                    return
                reach = list(env.get_agents(limit=crit["limit"]))
                same(len(reach), min(crit["limit"], len(pool)), "agents within the limit")
            else:
                reach = [a for a in pool if a is not sender]
            for a in reach:
                send(a, p, sender, e)
            obs.tag("broadcast_skipped_deaf", int(any(id(a) not in queues for a in reach)))
            env.broadcast(p.obj, sender=sender, **kw)
        elif kind == "process":
            if not hear:
                return
            a = hear[op[1] % len(hear)]
            if any(a is x for x in processing):
                return               # an agent does not process its messages from its own handler
            if count[0] < 400:
                process(a)
        elif kind == "kill":
            if len(agents) < 2:
                return
            a = agents.pop(op[1] % len(agents))
            queues.pop(id(a), None)
            graveyard.append(a)
            if isinstance(a, A.BaseAgent):
                a.die()
            else:
                env.schedule.remove(a)

    graveyard = []

    class Driver(A.BaseAgent):
        pos = 0

        def step(self):
            if self.pos >= len(case["script"]):
                self.model.running = False
                return INF
            dt, ops = case["script"][self.pos]
            self.pos += 1
            for op in ops:
                perform(op, None)
            return dt

    env = E.Environment(schedule_class=SCHEDULERS()[case["sched"]])
    for kind, g, how in case["agents"] + [["ev", 0, None]] * case["crowd"]:
        a = env.add_agent(CL[kind], g=g, **({"hello": how} if kind in ("ev", "full") else {}))
        agents.append(a)
    env.add_agent(Driver)
    guard = 0
    while env.running and guard < 60:
        env.step()
        guard += 1
    # whatever is still pending is delivered now, exactly once, and then nothing more
    for a in list(agents):
        if id(a) in queues:
            for _ in range(40):
                if not queues[id(a)]:
                    break
                process(a)
    for a in agents:
        if id(a) in queues and not queues[id(a)]:
            n = obs.tags.get("delivered", 0)
            processing.append(a)
            a.process_messages()
            processing.pop()
            same(obs.tags.get("delivered", 0), n, "messages repeated by %s" % a)
    obs.hit(obs.tags.get("delivered", 0) >= 2)


TARGETS = [Target("delivery", cases, check, quick=4000, rule="at least two messages are delivered")]
