"""C05: state machines follow their declared transitions.

Case: a chain of classes, each declaring/overriding states whose functions follow a table of return
values; several agents of any class of the chain. Oracle: a table-driven interpreter."""
from vf.lib import *
from vf.core import Target

TECHNIQUE = "generated state-machine classes (inheritance, names, return forms) against a table-driven interpreter"
ASSUMPTIONS = ["at most one default per class", "positive waits"]

NAMES = ["a", "ab", "go", "xy", "abc", "s_2", "Home", "ill", "it", "_low"]
CUSTOM = ["zz", "my state", "x-1", "q", "ok", "later"]

ret = st.one_of(
    st.just(["none"]), st.just(["delay0"]),
    st.tuples(st.sampled_from(["num", "delay", "at"]), any_waits).map(list),
    st.tuples(st.just("stay_tuple"), any_waits).map(list),
    st.tuples(st.sampled_from(["id", "obj", "obj", "cls", "tuple_none", "objdelay0"]), st.integers(0, 8)).map(list),
    st.tuples(st.sampled_from(["idt", "objt", "objdelay", "objat", "idd"]), st.integers(0, 8), any_waits).map(list),
)


@st.composite
def level(draw, used):
    k = draw(st.integers(0, 3))
    defs = []
    names = draw(st.lists(st.sampled_from(NAMES + CUSTOM), min_size=k, max_size=k, unique=True))
    for n in names:
        defs.append({"name": n, "style": draw(weighted(("plain", 3), ("gen", 1), ("async", 1))),
                     "pauses": draw(st.lists(any_waits, max_size=2)),
                     "rets": draw(st.lists(ret, min_size=1, max_size=3)), "default": False,
                     "dform": draw(st.sampled_from(["deco", "arg"]))})
    if defs and draw(weighted((True, 2), (False, 1))):
        draw(st.sampled_from(defs))["default"] = True
    return defs


@st.composite
def cases(draw):
    chain = [draw(level(None)) for _ in range(draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5])))]
    if not chain[0]:
        chain[0] = [{"name": "a", "style": "plain", "pauses": [], "rets": [["none"]], "default": True, "dform": "deco"}]
    # which earlier classes each one derives from (several: the usual order of resolution)
    parents = [[]] + [draw(weighted((None, 2), (1, 1), (2, 1))) for _ in chain[1:]]
    for i in range(1, len(chain)):
        k = parents[i]
        parents[i] = [i - 1] if k is None else draw(st.lists(st.integers(0, i - 1), min_size=min(k, i), max_size=k, unique=True))
    agents = draw(st.lists(fixed(level=st.one_of(st.integers(0, len(chain) - 1), st.just(len(chain) - 1)), start=st.one_of(st.none(), st.none(), st.integers(0, 8)),
                                 how=st.sampled_from(["arg", "arg_obj", "set_state"])), min_size=1, max_size=4))
    return {"base": draw(st.sampled_from(["FSM", "Agent", "mix"])), "chain": chain, "parents": parents, "mixin": draw(weighted((False, 3), (True, 1))), "agents": agents, "sched": draw(sched_names),
            "interval": draw(st.one_of(st.none(), st.sampled_from([0.5, 2]))), "steps": draw(st.integers(1, 12))}


def make_state(defn, tag, trace):
    """The state function of a definition; `self.names` lists the valid targets of the agent."""
    def enter(self):
        trace.append((self.unique_id, tag, float(self.now), self.state_id))
        if len(trace) > 3000:
            raise Violation("runaway")

    def leave(self):
        k = self.visits.get(tag, 0)
        self.visits[tag] = k + 1
        r = defn["rets"][k % len(defn["rets"])]
        op = r[0]
        if op == "none":
            return None
        if op == "num":
            return r[1]
        if op == "delay0":
            return self.delay()
        if op == "delay":
            return self.delay(r[1])
        if op == "at":
            return self.at(self.now + r[1])
        if op == "stay_tuple":
            return None, r[1]
        target = self.names[r[1] % len(self.names)]
        if op == "id":
            return target
        if op == "obj":
            return getattr(self, target)
        if op == "cls":
            return getattr(type(self), target)
        if op == "tuple_none":
            return getattr(self, target), None
        if op == "objdelay0":
            return getattr(self, target).delay()
        if op == "idt":
            return target, r[2]
        if op == "idd":
            return target, self.delay(r[2])
        if op == "objt":
            return getattr(self, target), r[2]
        if op == "objdelay":
            return getattr(self, target).delay(r[2])
        if op == "objat":
            return getattr(self, target).at(self.now + r[2])
        raise AssertionError(op)

    if defn["style"] == "plain":
        def f(self):
            enter(self)
            return leave(self)
    elif defn["style"] == "gen":
        def f(self):
            enter(self)
            for p in defn["pauses"]:
                yield p
                trace.append((self.unique_id, tag + ("resumed",), float(self.now), self.state_id))
            return leave(self)
    else:
        async def f(self):
            enter(self)
            for p in defn["pauses"]:
                await self.delay(p)
                trace.append((self.unique_id, tag + ("resumed",), float(self.now), self.state_id))
            return leave(self)
    name = defn["name"]
    plainname = name.isidentifier() and name not in CUSTOM
    f.__name__ = name if plainname else "f_" + str(abs(hash(name)) % 1000)
    use_arg = defn["default"] and defn["dform"] == "arg"
    if plainname and not use_arg:
        s = A.state(f)
    elif plainname:
        s = A.state(default=True)(f)
    elif use_arg:
        s = A.state(name=name, default=True)(f)
    else:
        s = A.state(name=name)(f)
    if defn["default"] and not use_arg:
        s = A.default_state(s)
    return f.__name__, s


def orders(parents):
    """The order of resolution of each class (of levels), worked out by Python itself on empty classes; an impossible list of bases becomes a chain."""
    out, dummies, real = [], [], []
    for l, ps in enumerate(parents):
        try:
            d = type("D%d" % l, tuple(dummies[p] for p in ps) or (object,), {"level": l})
        except TypeError:
            ps = [l - 1]
            d = type("D%d" % l, (dummies[l - 1],), {"level": l})
        dummies.append(d)
        real.append(ps)
        out.append([c.__dict__["level"] for c in d.__mro__ if "level" in c.__dict__])
    return real, out


def resolve(chain, order):
    """(states in force, default name) of the class with a given order of resolution."""
    states, default = {}, None
    for l in reversed(order):
        for d in chain[l]:
            states[d["name"]] = (d, (l, d["name"]))
            if d["default"]:
                default = d["name"]
    return states, default


def check(case, obs):
    chain, trace = case["chain"], []
    if case["base"] == "mix":
        class Mix(A.FSM, A.EventedAgent):
            pass
        base = Mix
    else:
        base = getattr(A, case["base"])
    parents, order = orders(case["parents"])
    root = base
    classes = []
    for l, defs in enumerate(chain):
        ns = {}
        for i, d in enumerate(defs):
            attr, s = make_state(d, (l, d["name"]), trace)
            if attr in ns:
                attr = attr + "_" + str(i)
            ns[attr] = s
        bases = tuple(classes[p] for p in parents[l]) or (root,)
        if case["mixin"] and l == len(chain) - 1 and case["base"] == "FSM":
            bases = tuple(b for b in bases if b is not root) + (A.Agent,)      # from behaviour to complete agent
            obs.tag("mixin")
        classes.append(type(root)("L%d" % l, bases, ns))
        obs.tag("several_bases", int(len(parents[l]) > 1))
        obs.tag("diamond", int(len(parents[l]) > 1 and len(order[l]) > len(parents[l]) + 1))
    sched = SCHEDULERS()[case["sched"]]

    class Host(E.Environment):
        schedule_class = sched
    interval = 1.0
    if case["interval"] is not None:
        Host.default_interval, interval = case["interval"], float(case["interval"])
    env = Host()
    model = {}
    for spec in case["agents"]:
        l = min(spec["level"], len(chain) - 1)
        states, default = resolve(chain, order[l])
        names = sorted(states)
        cls = classes[l]
        same(set(cls.states()), set(names) | {"dead"}, "states of the class")
        start = None if spec["start"] is None else names[spec["start"] % len(names)]
        if start is None and default is None:
            try:
                cls(unique_id=10 ** 6, model=env)
            except ValueError:
                obs.tag("no_default_rejected")
                continue
            raise Violation("an agent without a default state was created")
        kw = {}
        if start is not None:
            if spec["how"] == "set_state" and default is not None:
                pass
            else:
                kw["state_id"] = getattr(cls, start) if spec["how"] == "arg_obj" else start
        a = env.add_agent(cls, **kw)
        if start is not None and not kw:
            a.set_state(start)
        a.names, a.visits = names, {}
        first = start if start is not None else default
        same(a.state_id, first, "initial state")
        model[a.unique_id] = {"agent": a, "states": states, "names": names, "cur": first, "visits": {}, "due": 0.0, "pause": 0,
                              "defs": states[first]}
        obs.tag("inherited", int(l > 0 and states[first][1][0] < l))
    for _ in range(case["steps"]):
        before = len(trace)
        env.step()
        # every new entry must be the one the interpreter predicts
        for uid, tag, now, sid in trace[before:]:
            m = model[uid]
            d, t = m["states"][m["cur"]]
            want = t if m["pause"] == 0 else t + ("resumed",)
            require(tag == want and now == m["due"], "agent {} ran {} at {}, expected {} at {}", uid, tag, now, want, m["due"])
            same(sid, m["cur"], "state id during the activation")
            if d["style"] != "plain" and m["pause"] < len(d["pauses"]):
                m["due"] += float(d["pauses"][m["pause"]])
                m["pause"] += 1
                continue
            m["pause"] = 0
            k = m["visits"].get(t, 0)
            m["visits"][t] = k + 1
            r = d["rets"][k % len(d["rets"])]
            op, wait = r[0], interval
            if op in ("num", "delay", "at", "stay_tuple"):
                wait = float(r[1])
            elif op == "delay0":
                wait = 1.0
            elif op != "none":
                new = m["names"][r[1] % len(m["names"])]
                obs.tag("transition", int(new != m["cur"]))
                obs.tag("two_letter_id", int(op == "id" and len(new) == 2))
                m["cur"] = new
                if len(r) == 3:
                    wait = float(r[2])
            m["due"] += wait
        for uid, m in model.items():
            same(m["agent"].state_id, m["cur"], "state of agent %d after the step" % uid)
            require(m["due"] >= env.now, "agent {} missed its activation at {} (now {})", uid, m["due"], env.now)
    obs.hit(len(trace) >= 4 and len({t[1] for t in trace}) >= 2)


# ---- names that are not states
def mistake_cases():
    return fixed(n=st.integers(1, 4), at=st.integers(0, 3), name=st.sampled_from(["nowhere", "", "A", "s0 ", "s", "s01", "step", "init", "unique_id", "now", "inf", "s9"]), form=st.sampled_from(["id", "idt", "tuple_none", "arg", "set_state", "late", "late_same", "alien", "alien_t"]),
                 wait=any_waits, style=st.sampled_from(["plain", "gen", "async"]), base=st.sampled_from(["FSM", "Agent"]), sched=sched_names)


def check_mistakes(case, obs):
    n, at, bad, form = case["n"], case["at"] % case["n"], case["name"], case["form"]
    if form == "id" and (bad == "inf" or not bad):
        bad = "nowhere"          # a plain value that can be understood as a time
    ns = {}

    def one(i):
        def leave(self):
            self.runs.append(i)
            if i != at or form not in ("id", "idt", "tuple_none", "alien", "alien_t"):
                return "s%d" % ((i + 1) % n)
            return {"id": bad, "idt": (bad, case["wait"]), "tuple_none": (bad, None), "alien": object, "alien_t": (object, case["wait"])}[form]
        if case["style"] == "plain":
            f = leave
        elif case["style"] == "gen":
            def f(self):
                return leave(self)
                yield
        else:
            async def f(self):
                return leave(self)
        f.__name__ = "s%d" % i
        s = A.state(f)
        return A.default_state(s) if i == 0 else s
    for i in range(n):
        ns["s%d" % i] = one(i)
    root = getattr(A, case["base"])
    cls = type(root)("Wrong", (root,), ns)
    sched = SCHEDULERS()[case["sched"]]

    class Host(E.Environment):
        schedule_class = sched
    env = Host()
    if form == "arg":
        rejected(lambda: env.add_agent(cls, state_id=bad), "an agent created in the state %r" % bad)
        obs.hit()
        return
    a = env.add_agent(cls)
    a.runs = []
    if form == "set_state":
        rejected(lambda: a.set_state(bad), "set_state(%r)" % bad)
        same(a.state_id, "s0", "state after a rejected change")
        obs.hit()
        return
    if form in ("late", "late_same"):
        for _ in range(2 + at):
            env.step()
        before = a.state_id
        rejected(lambda: a.set_state(before if form == "late_same" else "s%d" % at), "set_state at %s" % env.now)
        same(a.state_id, before, "state after a rejected change")
        obs.hit()
        return

    def go():
        for _ in range(3 * n + 6):
            env.step()
    rejected(go, "a state function that returns a state that does not exist (%s, %r)" % (form, bad), TypeError)
    same(a.runs, list(range(at + 1)), "states that ran before the error")
    same(a.state_id, "s%d" % at, "state after the error")
    obs.hit()


def rejected(f, what, *also):
    try:
        f()
    except (ValueError,) + also:
        return
    raise Violation(what + " is accepted")


TARGETS = [Target("mistakes", mistake_cases, check_mistakes, quick=900, rule="every case is a mistake that must be reported"),
           Target("machines", cases, check, quick=3200, rule="at least four activations in at least two different states")]
