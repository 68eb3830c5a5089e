"""C29: the fixed-step wrapper only changes the granularity of the steps."""
import random
from fractions import Fraction
from vf.lib import *
from vf.core import Target

TECHNIQUE = "differential: the same generated schedule performed by the scheduler alone and through the wrapper, cut at the interval boundaries, plus an event-list oracle"
ASSUMPTIONS = ["agents ask for their activations with delays; the time they see is that of the inner scheduler"]

intervals = st.one_of(st.sampled_from([1, 1, 2, 0.5, 0.25, 3, 10, 1.5, 2 ** -10, 1 + 2 ** -24]), st.integers(1, 24).map(lambda k: k / 8))

# just before, or after, a boundary
near = st.sampled_from([1 - 2 ** -40, 0.5 - 2 ** -40, 2 - 2 ** -35, 1 + 2 ** -40, 2 ** -36])


def cases():
    op = st.one_of(st.just(["none"]), st.just(["none"]), st.tuples(st.just("spawn"), st.integers(0, 3), st.one_of(st.none(), offsets)).map(list), st.tuples(st.just("kill"), st.integers(0, 6)).map(list))
    act = fixed(w=st.one_of(opt_waits, opt_waits, opt_waits, near), op=op)
    ag = fixed(acts=st.lists(act, max_size=5), end=st.sampled_from(["dead", "forever", "inf"]), when=st.one_of(st.none(), st.none(), offsets), kind=st.sampled_from(["soil", "mesa"]))
    return fixed(agents=st.lists(ag, max_size=5), spare=st.lists(ag, max_size=2), sched=sched_names, interval=intervals, default=st.sampled_from([None, None, 2, 0.5]), steps=st.integers(1, 12), seed=st.integers(0, 5),
                 late=st.one_of(st.none(), st.integers(0, 5)), ahead=weighted((0, 3), (1, 1), (3, 1)), done=weighted((None, 4), (1, 1), (3, 1)))


class World:
    def __init__(self, case, wrap):
        self.case, self.log, self.made = case, [], []
        w = self

        class Soil(A.BaseAgent):
            def step(self):
                return w.act(self)

        class Mesa(mesa.Agent):
            def step(self):
                return w.act(self)

        self.kinds = {"soil": Soil, "mesa": Mesa}

        class Model(E.BaseEnvironment):
            pass

        if case["default"] is not None:
            Model.default_interval = case["default"]
        self.model = Model(seed=str(case["seed"]), schedule_class=SCHEDULERS()[case["sched"]])
        self.inner = self.model.schedule
        for s in case["agents"]:
            self.add(s, s["when"])
        # the scheduler may have been used before it is wrapped
        for _ in range(case["ahead"]):
            if self.inner.time != INF and self.inner.agents:
                self.inner.step()
        self.ahead = len(self.log)
        self.start = float(self.inner.time)
        if wrap:
            self.model.schedule = T.Lockstepper(self.inner, interval=case["interval"])

    def add(self, spec, when):
        a = self.kinds[spec["kind"]](unique_id=len(self.made), model=self.model)
        a.spec, a.n, a.gone = spec, 0, False
        self.made.append(a)
        t = self.inner.time
        if when is None:
            self.model.schedule.add(a)
        else:
            self.model.schedule.add(a, when=t + when)
        return a

    def act(self, a):
        if len(self.log) > 2000:
            raise Violation("endless activations")
        require(not a.gone, "activation of a removed agent")
        self.log.append((float(self.inner.time), a.unique_id))
        a.n += 1
        spec = a.spec
        if self.case["done"] is not None and len(self.log) == self.case["done"]:
            # whether there should be more steps is not the business of the scheduler
            self.model.running = False
        if a.n <= len(spec["acts"]):
            x = spec["acts"][a.n - 1]
            op = x["op"]
            if op[0] == "spawn" and self.case["spare"] and len(self.made) < 12:
                self.add(self.case["spare"][op[1] % len(self.case["spare"])], op[2] if op[2] != 0 else None)
            elif op[0] == "kill":
                v = self.made[op[1] % len(self.made)]
                if v is not a and not v.gone:
                    v.gone = True
                    self.model.schedule.remove(v)
            return x["w"]
        if spec["end"] == "forever":
            return None
        if spec["end"] == "inf":
            return INF
        a.gone = True
        self.model.schedule.remove(a)
        return INF


def check(case, obs):
    iv = float(case["interval"])
    with silent():
        # the scheduler alone, far enough
        alone = World(case, False)
        start = alone.start
        if start == INF:
            return
        horizon = start + iv * case["steps"]
        if any(Fraction(start) + Fraction(iv) * j != Fraction(start + iv * j) for j in range(case["steps"] + 1)):
            obs.tag("inexact")          # the boundaries would depend on how they are rounded
            return
        k = idle = 0
        while alone.inner.time < horizon and idle < 3:      # a step that neither activates anyone nor advances: nothing is left
            before = len(alone.log), alone.inner.time
            alone.model.schedule.step()
            idle = idle + 1 if before == (len(alone.log), alone.inner.time) else 0
            k += 1
            if k > 3000:
                raise Violation("the scheduler alone never ends")
        w = World(case, True)
        ls = w.model.schedule
        require(isinstance(ls, T.Lockstepper), "wrapper")
        same(float(ls.time), start, "initial time")
        seen = w.ahead
        obs.tag("used before", int(seen > 0))
        for i in range(case["steps"]):
            same(ls.steps, i, "steps before step %d" % i)
            ls.step()
            new = w.log[seen:]
            seen = len(w.log)
            same(float(ls.time), start + iv * (i + 1), "visible time after step %d" % i)
            for t, u in new:
                require(start + iv * i <= t < start + iv * (i + 1), "step {} performed an activation at {}, outside of [{}, {})", i, t, start + iv * i, start + iv * (i + 1))
            want = [x for x in alone.log if x[0] < start + iv * (i + 1)]
            same(w.log, want, "activations up to step %d" % i)
    same(sorted(a.unique_id for a in ls.agents), sorted(a.unique_id for a in alone.inner.agents), "agents left")
    same(ls.get_agent_count(), len(list(alone.inner.agents)), "agent count through the wrapper")
    times = {t for t, _ in w.log}
    obs.tag("boundary", int(any(t > 0 and (t / iv).is_integer() for t in times)))
    obs.tag("empty", int(not case["agents"]))
    obs.hit(len(times) > 2 and any((t / iv).is_integer() for t in times if t) and case["steps"] > 1)


# ---- against an oracle that does not use the schedulers
def oracle_cases():
    ag = fixed(waits=st.lists(st.one_of(any_waits, any_waits, near), max_size=5), forever=weighted((None, 2), (1, 1), (0.5, 1), (3, 1)), when=st.one_of(st.just(0), offsets))
    return fixed(agents=st.lists(ag, max_size=4), sched=sched_names, interval=intervals, steps=st.integers(1, 10), env=st.booleans())


def check_oracle(case, obs):
    log = []

    class Ag(A.BaseAgent):
        def step(self):
            log.append((float(inner.time), self.unique_id))
            i = self.i
            self.i += 1
            if i < len(self.waits):
                return self.waits[i]
            return self.forever if self.forever is not None else INF

    with silent():
        m = E.BaseEnvironment(schedule_class=SCHEDULERS()[case["sched"]])
        inner = m.schedule
        m.schedule = T.Lockstepper(inner, case["interval"])
        for k, s in enumerate(case["agents"]):
            m.schedule.add(Ag(unique_id=k, model=m, i=0, waits=s["waits"], forever=s["forever"]), when=s["when"])
        end = float(case["interval"]) * case["steps"]
        want = []
        for k, s in enumerate(case["agents"]):
            t, i = float(s["when"]), 0
            while t < end:
                want.append((t, k))
                w = s["waits"][i] if i < len(s["waits"]) else s["forever"]
                i += 1
                if w is None:
                    break
                t += w
        for i in range(case["steps"]):
            m.schedule.step()
            lim = float(case["interval"]) * (i + 1)
            same(sorted(log), sorted(x for x in want if x[0] < lim), "activations before %g" % lim)
            same(float(m.now), lim, "time of the model")
    same([t for t, _ in log], sorted(t for t, _ in log), "order")
    obs.hit(len(want) > 3)


TARGETS = [Target("wrapped", cases, check, quick=1600, rule="activations at three or more instants, some on an interval boundary, several steps"),
           Target("oracle", oracle_cases, check_oracle, quick=1000, rule="more than three activations")]
