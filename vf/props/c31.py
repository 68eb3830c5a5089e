"""C31: models and agents are also dictionaries of their attributes.

Histories of item and attribute operations on models of every kind, mirrored by a dictionary of the instance's own
attributes on top of what the class defines; parameters given at creation are looked up from `init` onwards."""
from vf.lib import *
from vf.core import Target

TECHNIQUE = "stateful model-based histories of item and attribute operations on models and agents against dictionaries"
ASSUMPTIONS = ["items are named by strings that do not start with an underscore and are not part of the interface of the class; deleting concerns the model's own attributes"]

NAMES = ["a", "b", "extra", "size", "klass", "late", "x1", "Name", "with space", "ñ", "model_size", "logger2"]
values = st.one_of(st.integers(-2, 3), st.sampled_from(["", "v", None, False, True, 0.5, [], [1], {"k": 1}, "default"]))
name = st.sampled_from(NAMES)
KINDS = ["base", "network", "evented", "sub", "sim"]


def cases():
    op = st.one_of(st.tuples(st.just("set"), name, values, st.booleans()), st.tuples(st.just("set"), name, values, st.booleans()), st.tuples(st.just("del"), name, st.booleans()),
                   st.tuples(st.just("get"), name, values), st.tuples(st.just("add")), st.tuples(st.just("kill"), st.integers(0, 9)), st.tuples(st.just("step")),
                   st.tuples(st.just("private"), values)).map(list)
    return fixed(kind=st.sampled_from(KINDS), params=st.dictionaries(name, values, max_size=5), agents=st.integers(1, 3), ops=st.lists(op, max_size=14))


class Ag(A.BaseAgent):
    def step(self):
        self.model["late"] = self.model.get("late", 0) if isinstance(self.model.get("late", 0), int) else 0
        return 1


def make(base):
    class World(base):
        klass = "from the class"
        size = 3

        @property
        def doubled(self):
            return [self.get("x1"), self.get("x1")]

        def method(self):
            return 1

        def init(self):
            self.seen = {k: (self[k], getattr(self, k), self.get(k), k in self) for k in NAMES if k in self}
            for i in range(self.given["agents"]):
                self.add_agent(Ag)
    return World


class Missing:
    pass


def check(case, obs):
    base = {"base": E.BaseEnvironment, "network": E.NetworkEnvironment, "evented": E.EventedEnvironment, "sub": E.Environment, "sim": E.Environment}[case["kind"]]
    World = make(base)
    if case["kind"] == "sub":
        class World(World):
            klass = "from the subclass"
    World.given = case
    if case["kind"] == "sim":
        with silent():
            env = S.Simulation(model=World, parameters=case["params"], exporters=[], dump=False, max_steps=1, seed="x").run()[0]
    else:
        env = World(**case["params"])
    own = dict(case["params"])                  # what was put in the instance, by us
    cls = {"klass": World.klass, "size": 3}
    for k, vs in env.seen.items():
        want = own[k] if k in own else cls[k]
        for v in vs[:3]:
            require(v == want and type(v) is type(want), "during init, {} was {!r} instead of {!r}", k, vs, want)
        same(vs[3], True, "membership during init")
    same(sorted(env.seen), sorted(set(own) | set(cls)), "names known during init")
    if case["kind"] == "sim":
        own["late"] = own["late"] if isinstance(own.get("late", 0), int) and "late" in own else 0
    base_keys = set(env.__dict__) - set(NAMES)

    def verify():
        for k in NAMES + ["doubled", "method", "nothing"]:
            if k in own:
                want = own[k]
            elif k in cls:
                want = cls[k]
            elif k == "doubled":
                want = [own.get("x1"), own.get("x1")]
            elif k == "method":
                want = env.method
            else:
                want = Missing
            if want is Missing:
                same(k in env, False, "membership of %s" % k)
                same(hasattr(env, k), False, "attribute %s" % k)
                for bad in (lambda: env[k],):
                    try:
                        v = bad()
                    except KeyError:
                        pass
                    else:
                        raise Violation("missing item %r is %r" % (k, v))
                require(env.get(k) is None, "get of the missing {} returned {!r}", k, env.get(k))
                mark = object()
                require(env.get(k, mark) is mark, "the default of {} is not returned", k)
                require(env.get(k, default=mark) is mark, "the default of {} is not returned", k)
            else:
                same(k in env, True, "membership of %s" % k)
                for v in (env[k], getattr(env, k), env.get(k), env.get(k, "other")):
                    require(v == want and type(v) is type(want), "{} is {!r} instead of {!r}", k, v, want)
        ks = list(env.keys())
        same(len(ks), len(set(ks)), "repeated keys")
        require(not [k for k in ks if k.startswith("_")], "private keys: {}", ks)
        same(sorted(k for k in ks if k in NAMES), sorted(own), "keys")
        public = sorted(k for k in env.__dict__ if not k.startswith("_"))
        same(sorted(ks), public, "all the keys")
        same(len(env), len(public), "length")
        d = dict(env)
        same(sorted(d), public, "keys of its dictionary")
        for k in own:
            require(d[k] == own[k], "{} is {!r} in its dictionary", k, d[k])
        agents = list(env.schedule.agents)
        it = list(env)
        same([id(a) for a in it], [id(a) for a in agents], "agents when iterating")
    verify()
    for op in case["ops"]:
        if op[0] == "set":
            _, k, v, item = op
            if item:
                env[k] = v
            else:
                setattr(env, k, v)
            own[k] = v
            obs.tag("set")
        elif op[0] == "del":
            _, k, item = op
            if k in own:
                if item:
                    del env[k]
                else:
                    delattr(env, k)
                del own[k]
                obs.tag("deleted")
            elif item and k not in cls:
                try:
                    del env[k]
                except (KeyError, AttributeError):
                    obs.tag("delete_missing")
                else:
                    raise Violation("deleting the missing %r did not fail" % k)
        elif op[0] == "get":
            env.get(op[1], op[2])
        elif op[0] == "add":
            env.add_agent(Ag)
        elif op[0] == "kill":
            l = list(env.schedule.agents)
            if len(l) > 1:
                l[op[1] % len(l)].die()
        elif op[0] == "private":
            env["_hidden"] = op[1]
            require(env["_hidden"] == op[1] and "_hidden" in env, "private items cannot be read")
        elif op[0] == "step":
            env.step()
            if env.schedule.agents:
                own["late"] = own["late"] if isinstance(own.get("late", 0), int) and "late" in own else 0
            obs.tag("step")
        verify()
    obs.hit(obs.tags.get("set", 0) + len(case["params"]) > 1)


# ---- agents
FRESH = ["a", "b", "extra", "late", "with space", "ñ", "model_size", "logger2"]
AKINDS = {"base": A.BaseAgent, "fsm": A.FSM, "network": A.NetworkAgent, "evented": A.EventedAgent, "full": A.Agent}


def agent_cases():
    nm = st.sampled_from(FRESH + ["declared", "shared"])
    some = st.lists(st.sampled_from(FRESH + ["declared", "unique_id", "name", "nothing"]), max_size=4, unique=True)
    op = st.one_of(st.tuples(st.just("set"), nm, values, st.sampled_from(["item", "attr", "update", "default"])), st.tuples(st.just("set"), nm, values, st.sampled_from(["item", "attr", "update", "default"])),
                   st.tuples(st.just("del"), nm, st.sampled_from(["item", "attr", "pop", "popdefault"])), st.tuples(st.just("model"), nm, values), st.tuples(st.just("unmodel"), nm),
                   st.tuples(st.just("text"), st.one_of(st.none(), some), st.one_of(st.none(), some), st.booleans()), st.tuples(st.just("items"), st.one_of(st.none(), some), st.one_of(st.none(), some)),
                   st.tuples(st.just("step")), st.tuples(st.just("private"), values)).map(list)
    return fixed(kind=st.sampled_from(sorted(AKINDS)), params=st.dictionaries(st.sampled_from(FRESH), values, max_size=4), ops=st.lists(op, max_size=14))


def make_agent(base):
    ns = {"declared": 7, "__module__": __name__}

    def act(self):
        self.model.acted += 1
        return 1
    if issubclass(base, A.FSM):
        ns["only"] = A.default_state(A.state(act))
    else:
        ns["step"] = act
    return type(base)("Thing", (base,), ns)


def check_agents(case, obs):
    Thing = make_agent(AKINDS[case["kind"]])
    env = E.Environment(acted=0)
    other = env.add_agent(Thing, a="of the other")
    ag = env.add_agent(Thing, **case["params"])
    own = dict(case["params"], declared=7)
    outer = {}
    watched = FRESH + ["declared", "shared"]
    given = set(ag.__dict__) - set(own)

    def verify():
        for k in watched + ["nothing"]:
            if k in own:
                same(k in ag, True, "membership of %s" % k)
                for v in (ag[k], getattr(ag, k), ag.get(k), ag.get(k, "other")):
                    require(v == own[k] and type(v) is type(own[k]), "{} is {!r} instead of {!r}", k, v, own[k])
            else:
                same(k in ag, False, "membership of %s" % k)
                same(hasattr(ag, k), False, "attribute %s" % k)
                try:
                    v = ag[k]
                except KeyError:
                    pass
                else:
                    raise Violation("missing item %r is %r" % (k, v))
                mark = object()
                if k in outer:              # the model is asked next
                    require(ag.get(k, mark) is outer[k] and ag.get(k) is outer[k], "get of {} is {!r} instead of that of the model, {!r}", k, ag.get(k, mark), outer[k])
                    obs.tag("from_model")
                else:
                    require(ag.get(k) is None and ag.get(k, mark) is mark and ag.get(k, default=mark) is mark, "get of the missing {} returned {!r}", k, ag.get(k, mark))
        ks = list(ag.keys())
        same(len(ks), len(set(ks)), "repeated keys")
        require(not [k for k in ks if k.startswith("_") or k in ("model", "logger")], "keys: {}", ks)
        same(sorted(k for k in ks if k in watched), sorted(own), "keys")
        require({"unique_id", "name", "alive"} <= set(ks), "keys: {}", ks)
        same(list(ag), ks, "keys when iterating")
        same(len(ag), len(ks), "length")
        d = dict(ag)
        same(list(d), ks, "keys of its dictionary")
        same([id(v) for v in ag.values()], [id(d[k]) for k in ks], "values")
        same([(k, id(v)) for k, v in ag.items()], [(k, id(d[k])) for k in ks], "items")
        for k in own:
            require(d[k] is getattr(ag, k), "{} is {!r} in its dictionary", k, d[k])
        require(ag == ag and not ag == other and ag != other and hash(ag) == hash(ag), "an agent is only equal to itself")
        require(bool(ag), "an agent is true")
        same(other["a"], "of the other", "another agent")

    verify()
    for op in case["ops"]:
        if op[0] == "set":
            _, k, v, how = op
            if how == "item":
                ag[k] = v
            elif how == "attr":
                setattr(ag, k, v)
            elif how == "update":
                ag.update({k: v})
            else:
                r = ag.setdefault(k, v)
                v = own.get(k, v)
                require(r == v and type(r) is type(v), "setdefault of {} gave {!r} instead of {!r}", k, r, v)
            own[k] = v
            obs.tag("set")
        elif op[0] == "del":
            _, k, how = op
            if k in own:
                v = own.pop(k)
                if how == "item":
                    del ag[k]
                elif how == "attr":
                    delattr(ag, k)
                else:
                    r = ag.pop(k, None) if how == "popdefault" else ag.pop(k)
                    require(r == v and type(r) is type(v), "pop of {} gave {!r} instead of {!r}", k, r, v)
                obs.tag("deleted")
            elif how == "popdefault":
                same(ag.pop(k, "d"), "d", "pop of a missing item")
            elif how != "attr":
                try:
                    ag.pop(k) if how == "pop" else ag.__delitem__(k)
                except (KeyError, AttributeError):
                    pass
                else:
                    raise Violation("deleting the missing %r did not fail" % k)
        elif op[0] == "model":
            env[op[1]] = outer[op[1]] = op[2]
        elif op[0] == "unmodel" and op[1] in outer:
            del env[op[1]]
            del outer[op[1]]
        elif op[0] == "private":
            ag["_hidden"] = op[1]
            require(ag["_hidden"] == op[1] and "_hidden" in ag, "private items cannot be read")
        elif op[0] == "step":
            n = env.acted
            env.step()
            same(env.acted, n + 2, "activations in a step")
        elif op[0] in ("items", "text"):
            _, keys, skip = op[:3]
            want = [(k, ag.get(k)) for k in (ag.keys() if keys is None else keys) if k not in (skip or [])]
            kw = {k: v for k, v in (("keys", keys), ("skip", skip)) if v is not None}
            if op[0] == "items":
                same([(k, id(v)) for k, v in ag.items(**kw)], [(k, id(v)) for k, v in want], "items with %r" % kw)
            elif op[3]:
                t = ag.to_str(pretty=True, **kw)
                require(t.startswith("Thing(1)"), "text {!r}", t)
                for k, v in want:
                    require("- %s: %s" % (k, v) in t, "{} is not in the text {!r}", k, t)
                for k in own:
                    if k not in dict(want):
                        require("- %s: " % k not in t, "{} is in the text {!r}", k, t)
            else:
                t = ag.to_str(**kw)
                same(t, "Thing(1)%s" % dict(want), "text")
                same(str(ag), "Thing(1)%s" % dict(ag), "text")
            same(repr(ag), "Thing(1)", "short text")
            obs.tag(op[0])
        verify()
    obs.hit(obs.tags.get("set", 0) + len(case["params"]) > 1)


TARGETS = [Target("agents", agent_cases, check_agents, quick=1200, rule="at least two items are given or set"),
           Target("items", cases, check, quick=1500, rule="at least two items are given or set")]
