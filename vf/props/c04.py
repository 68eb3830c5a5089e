"""C04: all ways of writing a behaviour yield the same trajectory.

A program is a list of rounds; a round is a list of (action, wait) items. Each encoding executes it in its
own style (position counters, generators, coroutines, states); the oracle is the straight-line
interpretation of the program."""
from vf.lib import *
from vf.core import Target

TECHNIQUE = "differential: one generated program run in every agent encoding, compared with its straight-line interpretation"
ASSUMPTIONS = ["waits are positive binary fractions"]

ENCODINGS = ["plain", "gen", "async", "fsm", "fsm_gen", "fsm_async", "fsm2", "fsm2_gen", "gen_agent", "evented_gen",
             "sub_plain", "sub_gen", "sub_async", "super_plain", "super_gen", "sub_fsm_gen", "custom_gen", "net_async"]

item = fixed(w=opt_waits, form=weighted(("num", 4), ("delay", 2), ("at", 2)), nest=st.booleans())
programs = st.lists(st.lists(item, min_size=1, max_size=4), min_size=0, max_size=4)


def cases():
    return fixed(program=programs, sched=sched_names, interval=st.one_of(st.none(), st.sampled_from([2, 0.5])),
                 agents=st.lists(st.tuples(st.sampled_from(ENCODINGS), st.one_of(st.none(), offsets)).map(list), min_size=1, max_size=6),
                 end=st.sampled_from(["inf", "die"]))


def oracle(case, start, interval):
    t, trace = start, []
    for r, items in enumerate(case["program"]):
        for i, it in enumerate(items):
            trace.append((t, r, i, i + 1))
            t = t + (interval if it["w"] is None else float(it["w"]))
    trace.append((t, "end", 0, 0))
    return trace


def classes(case, interval):
    program = case["program"]

    class Mixin:
        def rec(self, r, i, local):
            self.trace.append((float(self.now), r, i, local))
            if len(self.trace) > 200:
                raise Violation("an agent does not stop: %r" % (self.trace[:30],))

        def finish(self):
            self.rec("end", 0, 0)
            return self.die() if case["end"] == "die" else INF

        def wait(self, it):
            w = it["w"]
            if w is None:
                return None
            if it["form"] == "delay":
                return self.delay(w)
            if it["form"] == "at":
                return self.at(self.now + w)
            return w

        # generator style
        def helper(self, it):
            got = yield self.wait(it)
            return got

        def body_gen(self):
            if self.round >= len(program):
                return self.finish()
            r, items, local = self.round, program[self.round], 0
            for i, it in enumerate(items):
                local += 1
                self.rec(r, i, local)
                if i == len(items) - 1:
                    self.round += 1
                    return self.wait(it)
                if it["nest"]:
                    got = yield from self.helper(it)
                else:
                    got = yield self.wait(it)
                require(got is None, "yield returned {}", got)

        # asynchronous style
        async def ahelper(self, it):
            w = self.wait(it)
            if w is None:
                w = self.delay(interval)
            elif not isinstance(w, T.Delay):
                w = self.delay(w)
            return await w

        async def body_async(self):
            if self.round >= len(program):
                return self.finish()
            r, items, local = self.round, program[self.round], 0
            for i, it in enumerate(items):
                local += 1
                self.rec(r, i, local)
                if i == len(items) - 1:
                    self.round += 1
                    return self.wait(it)
                if it["nest"]:
                    await self.ahelper(it)
                else:
                    w = it["w"]
                    await (self.delay(interval if w is None else w))

        # plain style
        def body_plain(self):
            if self.round >= len(program):
                return self.finish()
            r, i, items = self.round, self.pos, program[self.round]
            it = items[i]
            self.rec(r, i, i + 1)
            self.pos += 1
            if self.pos == len(items):
                self.pos, self.round = 0, self.round + 1
            return self.wait(it)

        def to(self, state, w):
            if w is None:
                return state
            if isinstance(w, tuple):        # dying
                return w
            if isinstance(w, T.Delay):
                return state, w
            return state.delay(w)

    class Plain(Mixin, A.BaseAgent):
        def step(self):
            return self.body_plain()

    class Gen(Mixin, A.BaseAgent):
        def step(self):
            return (yield from self.body_gen())

    class Async(Mixin, A.BaseAgent):
        async def step(self):
            return await self.body_async()

    class NetAsync(Mixin, A.NetworkAgent):
        async def step(self):
            return await self.body_async()

    class Fsm(Mixin, A.FSM):
        @A.default_state
        @A.state
        def go(self):
            return self.body_plain()

    class FsmGen(Mixin, A.FSM):
        @A.default_state
        @A.state
        def go(self):
            return (yield from self.body_gen())

    class FsmAsync(Mixin, A.FSM):
        @A.default_state
        @A.state
        async def go(self):
            return await self.body_async()

    class Fsm2(Mixin, A.FSM):
        @A.default_state
        @A.state
        def odd(self):
            return self.to(self.even, self.body_plain())

        @A.state
        def even(self):
            return self.to(self.odd, self.body_plain())

    class Fsm2Gen(Mixin, A.FSM):
        @A.default_state
        @A.state
        def odd(self):
            w = yield from self.body_gen()
            return self.to(self.even, w)

        @A.state
        def even(self):
            w = yield from self.body_gen()
            return self.to(self.odd, w)

    class GenAgent(Mixin, A.Agent):
        @A.default_state
        @A.state
        def go(self):
            return (yield from self.body_gen())

    class EventedGen(Mixin, A.EventedAgent):
        def step(self):
            return (yield from self.body_gen())

    class SubPlain(Plain):
        pass

    class SubGen(Gen):
        extra = 1

    class SubAsync(Async):
        pass

    class SuperPlain(Plain):
        def step(self):
            return super().step()

    class SuperGen(Gen):
        def step(self):
            return super().step()

    class SubFsmGen(FsmGen):
        @A.state
        def unused(self):
            raise Violation("a state that nobody asked for was run")

    return {"plain": Plain, "gen": Gen, "async": Async, "fsm": Fsm, "fsm_gen": FsmGen, "fsm_async": FsmAsync, "fsm2": Fsm2,
            "fsm2_gen": Fsm2Gen, "gen_agent": GenAgent, "evented_gen": EventedGen, "sub_plain": SubPlain, "sub_gen": SubGen,
            "sub_async": SubAsync, "super_plain": SuperPlain, "super_gen": SuperGen, "sub_fsm_gen": SubFsmGen,
            "custom_gen": Gen.w(extra=3), "net_async": NetAsync}


def check(case, obs):
    sched = SCHEDULERS()[case["sched"]]

    class Host(E.Environment):
        schedule_class = sched
    interval = 1.0
    if case["interval"] is not None:
        Host.default_interval = case["interval"]
        interval = float(case["interval"])
    kinds = classes(case, interval)
    env = Host()
    agents = []
    for enc, when in case["agents"]:
        a = kinds[enc](unique_id=env.next_id(), model=env)
        a.trace, a.round, a.pos = [], 0, 0
        env.schedule.add(a, when=when)
        agents.append(a)
    n = 0
    while env.running and n < 600:
        env.step()
        n += 1
    for (enc, when), a in zip(case["agents"], agents):
        same(a.trace, oracle(case, float(when or 0), interval), "trajectory of the %s encoding" % enc)
        same(a.round, len(case["program"]), "rounds completed by the %s encoding" % enc)
        obs.tag(enc)
    obs.tag("same_class_twice", int(len({e for e, _ in case["agents"]}) < len(case["agents"])))
    obs.hit(sum(map(len, case["program"])) >= 3 and len(agents) >= 2)


TARGETS = [Target("encodings", cases, check, quick=3600, rule="a program of at least three activations run by at least two agents")]
