"""C22: agent attributes follow the declared precedence and stay private."""
import copy
from vf.lib import *
from vf.core import Target

TECHNIQUE = "generated class hierarchies, model values and arguments against a precedence model; generated operation sequences through attributes and the dictionary interface against a dictionary; aliasing probes by mutation"
ASSUMPTIONS = ["attribute names are not those of soil's own attributes and methods", "one class does not declare a name both as an attribute and in its defaults dictionary"]

NAMES = ["aa", "bb", "cc", "dd"]
plain = st.one_of(st.integers(-2, 3), st.sampled_from([0, 0.0, "", "x", False, True, 1.5, None]))
val = st.one_of(plain, plain, st.lists(plain, max_size=2), st.dictionaries(st.sampled_from(["k", "j"]), st.one_of(plain, st.lists(plain, max_size=2)), max_size=2), st.lists(st.lists(plain, max_size=1), min_size=1, max_size=2),
                st.sampled_from([{"!set": [1, "x"]}, {"!set": []}, {"!box": [1]}, {"!box": []}, {"!tuple": [[1], 2]}, {"!tuple": [{"!set": [2]}]}, {"!call": "len"}, {"!call": "Box"}]))
BASES = {"BaseAgent": A.BaseAgent, "NetworkAgent": A.NetworkAgent, "EventedAgent": A.EventedAgent, "FSM": A.FSM, "Agent": A.Agent}
decl = st.dictionaries(st.sampled_from(NAMES), st.tuples(st.sampled_from(["attr", "attr", "dict"]), val).map(list), max_size=3)


class Box:
    """An object of the user."""
    def __init__(self, items):
        self.items = items


def real(x):
    if isinstance(x, dict):
        for k, f in (("!set", set), ("!box", Box), ("!tuple", tuple)):
            if set(x) == {k}:
                return f([real(v) for v in x[k]])
        if set(x) == {"!call"}:
            return {"len": len, "Box": Box}[x["!call"]]
        return {k: real(v) for k, v in x.items()}
    return [real(v) for v in x] if isinstance(x, list) else x


def typed(x):
    if isinstance(x, Box):
        return ["Box", typed(x.items)]
    if isinstance(x, set):
        return ["set", sorted(typed(v) for v in x)]
    if isinstance(x, dict):
        return ["dict", sorted([k, typed(v)] for k, v in x.items())]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [typed(v) for v in x]
    return [type(x).__name__, repr(x)]


def is_mutable(x):
    return isinstance(x, (list, dict, set, Box)) or isinstance(x, tuple) and any(is_mutable(v) for v in x)


def spoil(x):
    """Change everything that can be changed inside a value."""
    if isinstance(x, list):
        for v in x:
            spoil(v)
        x.append("spoiled")
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x["spoiled"] = 1
    elif isinstance(x, set):
        x.add("spoiled")
    elif isinstance(x, Box):
        spoil(x.items)
    elif isinstance(x, tuple):
        for v in x:
            spoil(v)


def cases():
    cls = fixed(bases=st.lists(st.integers(0, 5), min_size=1, max_size=2), decl=decl)
    w = fixed(of=st.integers(0, 5), attrs=st.dictionaries(st.sampled_from(NAMES), val, min_size=1, max_size=2), shout=st.booleans())
    agent = fixed(cls=st.integers(0, 8), kw=st.dictionaries(st.sampled_from(NAMES + ["extra"]), val, max_size=2), name=st.sampled_from([None, "bob"]))
    return fixed(base=st.sampled_from(sorted(BASES)), classes=st.lists(cls, min_size=1, max_size=5), custom=st.lists(w, max_size=2), model=st.dictionaries(st.sampled_from(NAMES), val, max_size=2),
                 model_how=st.sampled_from(["param", "class", "item"]), agents=st.lists(agent, min_size=2, max_size=5), how=st.sampled_from(["add", "add", "direct"]), quiet=weighted((False, 3), (True, 1)))


SNAPS = []


def snapshot(self):
    """The init of every class: what the agent looks like when it is called."""
    SNAPS.append((self, {k: typed(getattr(self, k)) for k in NAMES + ["extra", "name", "unique_id"] if hasattr(self, k)}, getattr(self, "node_id", "none"), getattr(self, "_inbox", "none") is not None))


def build(case):
    base = BASES[case["base"]]
    classes, decls = [], []
    for i, c in enumerate(case["classes"]):
        parents = []
        for b in c["bases"]:
            p = classes[b % i] if i else base
            if p not in parents:
                parents.append(p)
        ns = {"__module__": __name__, "step": lambda self: 1, "shout": lambda self: "plain"}
        if not i:
            ns["init"] = snapshot
        d = {}
        for k, (how, v) in c["decl"].items():
            if how == "dict":
                d[k] = copy.deepcopy(v)
            else:
                ns[k] = copy.deepcopy(v)
        if d:
            ns["defaults"] = d
        try:
            cls = type(base)("K%d" % i, tuple(parents), ns)
        except TypeError as ex:
            if "MRO" in str(ex) or "method resolution" in str(ex):
                cls = type(base)("K%d" % i, (parents[0],), ns)
            else:
                raise
        classes.append(cls)
        decls.append({k: v for k, (how, v) in c["decl"].items()})
    own = {c: d for c, d in zip(classes, decls)}
    for i, w in enumerate(case["custom"]):
        src = classes[w["of"] % len(classes)]
        kw = copy.deepcopy(w["attrs"])
        if w["shout"]:
            kw["shout"] = lambda self: "custom"
        keep = dict(kw)
        cls = src.w(**kw)
        require(isinstance(cls, type) and issubclass(cls, src) and cls is not src, "customised copy {!r}", cls)
        same(cls.__name__, src.__name__, "name of the copy")
        own[cls] = dict(w["attrs"])
        classes.append(cls)
    return classes, own


def declared(cls, own):
    out = {}
    for c in reversed(cls.__mro__):
        out.update(own.get(c, {}))
    return out


def check(case, obs):
    case = real(case)
    classes, own = build(case)
    shared = copy.deepcopy(case["model"])
    if case["model_how"] == "class":
        M = type("M", (soil.Environment,), dict(shared))
        model = M()
    else:
        model = soil.Environment(**(shared if case["model_how"] == "param" else {}))
        if case["model_how"] == "item":
            for k, v in shared.items():
                model[k] = v
    made = []
    for i, a in enumerate(case["agents"]):
        cls = classes[a["cls"] % len(classes)]
        kw = copy.deepcopy(a["kw"])
        if a["name"]:
            kw["name"] = a["name"]
        del SNAPS[:]
        quiet = case["how"] == "direct" and case["quiet"]
        if case["how"] == "add":
            ag = model.add_agent(cls, **kw)
        else:
            ag = cls(unique_id=100 + i, model=model, **kw, **({"init": False} if quiet else {}))
        snaps = list(SNAPS)
        want = {}
        d = declared(cls, own)
        for k in d:
            if k in a["kw"]:
                want[k] = (a["kw"][k], "given")
            elif case["model"].get(k) is not None:
                want[k] = (case["model"][k], "model")
            else:
                want[k] = (d[k], "default")
        for k in a["kw"]:
            want.setdefault(k, (a["kw"][k], "given"))
        for k, (v, src) in want.items():
            require(hasattr(ag, k), "agent {} of {} has no {}", i, cls.__name__, k)
            same(typed(getattr(ag, k)), typed(v), "%s of agent %d (%s)" % (k, i, src))
            same(typed(ag[k]), typed(v), "%s of agent %d, as an item" % (k, i))
            obs.tag(src)
        for k in NAMES:
            if k not in want:
                require(k not in ag.__dict__, "agent {} has {} though nobody declared it", i, k)
        same(len(snaps), 0 if quiet else 1, "times that agent %d was initialized" % i)
        for who, seen, node, _ in snaps:
            require(who is ag, "another agent was initialized")
            for k, (v, src) in want.items():
                same(seen.get(k), typed(v), "%s of agent %d (%s) during its initialization" % (k, i, src))
            same((seen.get("name"), seen.get("unique_id")), (typed(ag.name), typed(ag.unique_id)), "name and id during the initialization")
            if isinstance(ag, A.NetworkAgent):
                require(node in model.G, "during its initialization, agent {} was on the node {!r}", i, node)
        same(ag.name, a["name"] if a["name"] else "%s[%d]" % (cls.__name__, ag.unique_id), "name")
        want_shout = "plain"
        for c in cls.__mro__:
            if "shout" in c.__dict__:
                want_shout = c.__dict__["shout"](None)
                break
        same(ag.shout(), want_shout, "method")
        made.append((ag, want))
        # spoil the defaults this agent got: nobody else may notice
        for k, (v, src) in want.items():
            if src == "default" and is_mutable(getattr(ag, k)):
                spoil(getattr(ag, k))
                obs.tag("spoiled")
            elif src == "default":
                setattr(ag, k, "changed")
        for other, w in made[:-1]:
            for k, (v, src) in w.items():
                if src == "default":
                    v = copy.deepcopy(v)
                    if is_mutable(v):
                        spoil(v)
                        same(typed(getattr(other, k)), typed(v), "%s of an earlier agent" % k)
                    else:
                        same(getattr(other, k), "changed", "%s of an earlier agent" % k)
    for k, v in case["model"].items():
        same(typed(getattr(model, k)), typed(v), "the model's %s" % k)
    srcs = [s for _, w in made for _, s in w.values()]
    obs.hit(len(set(srcs)) > 1 and len(case["classes"]) > 1)
    if any(len(c.__bases__) > 1 for c in classes):
        obs.tag("several bases")


# ---- dictionary interface
KEYS = ["p", "q", "r", "_hidden", "aa"]


def op():
    key = st.sampled_from(KEYS)
    return st.one_of(
        fixed(op=st.sampled_from(["set", "setattr"]), k=key, v=plain), fixed(op=st.sampled_from(["set", "setattr"]), k=key, v=plain),
        fixed(op=st.sampled_from(["del", "delattr", "pop", "pop_default", "get", "get_default", "item", "attr", "in", "has"]), k=key),
        fixed(op=st.sampled_from(["keys", "items", "len", "dict", "values", "iter"])),
        fixed(op=st.just("items_skip"), skip=st.lists(key, max_size=2)), fixed(op=st.just("items_keys"), ks=st.lists(key, max_size=2)),
        fixed(op=st.sampled_from(["setdefault"]), k=key, v=plain), fixed(op=st.just("update"), d=st.dictionaries(key, plain, max_size=2)))


def map_cases():
    return fixed(base=st.sampled_from(sorted(BASES)), model=st.dictionaries(st.sampled_from(KEYS), plain, max_size=2), ops=st.lists(op(), min_size=1, max_size=14), init=st.dictionaries(st.sampled_from(["p", "q"]), plain, max_size=2), other=st.booleans())


class _Missing:
    def __repr__(self):
        return "missing"


MISSING = _Missing()


def check_map(case, obs):
    base = BASES[case["base"]]
    cls = type(base)("K", (base,), {"__module__": __name__, "step": lambda self: 1, "aa": 7})
    model = soil.Environment(**case["model"])
    ag = model.add_agent(cls, **case["init"])
    other = model.add_agent(cls, **case["init"])
    start = dict(ag.__dict__)
    builtin = {k for k in start if k[0] != "_" and k not in KEYS and k not in ("model", "logger")}
    require({"unique_id", "name", "alive"} <= builtin, "own attributes: {}", builtin)
    mine = dict(case["init"])
    mine["aa"] = 7 if case["model"].get("aa") is None else case["model"]["aa"]
    wrote = 0

    def listed():
        return builtin | {k for k in mine if k[0] != "_"}

    for o in case["ops"]:
        k = o.get("k")
        w = o["op"]
        if w in ("set", "setattr"):
            if w == "set":
                ag[k] = o["v"]
            else:
                setattr(ag, k, o["v"])
            mine[k] = o["v"]
            wrote += 1
        elif w in ("del", "delattr", "pop"):
            try:
                got = {"del": lambda: ag.__delitem__(k), "delattr": lambda: delattr(ag, k), "pop": lambda: ag.pop(k)}[w]()
            except (KeyError, AttributeError):
                require(k not in mine, "{} {} failed though it was there", w, k)
            else:
                require(k in mine, "{} {} worked though it was not there", w, k)
                if w == "pop":
                    same(typed(got), typed(mine[k]), "popped value")
                del mine[k]
                wrote += 1
        elif w == "pop_default":
            same(typed(ag.pop(k, "none")), typed(mine.pop(k, "none")), "pop with a default")
        elif w == "get":
            same(typed(ag.get(k)), typed(mine.get(k, case["model"].get(k))), "get %s" % k)
        elif w == "get_default":
            same(typed(ag.get(k, "dflt")), typed(mine[k] if k in mine else case["model"].get(k, "dflt")), "get %s with a default" % k)
        elif w in ("item", "attr"):
            try:
                got = ag[k] if w == "item" else getattr(ag, k)
            except (KeyError if w == "item" else AttributeError):
                got = MISSING
            same(typed(got), typed(mine.get(k, MISSING)), "%s %s" % (w, k))
        elif w == "in":
            same(k in ag, k in mine, "%s in agent" % k)
        elif w == "has":
            same(hasattr(ag, k), k in mine, "has %s" % k)
        elif w == "keys":
            ks = list(ag.keys())
            same(sorted(ks), sorted(listed()), "keys")
        elif w == "len":
            same(len(ag), len(listed()), "len")
        elif w in ("items", "dict", "iter"):
            items = [(x, ag[x]) for x in ag] if w == "iter" else (list(ag.items()) if w == "items" else list(dict(ag).items()))
            same(sorted(x for x, _ in items), sorted(listed()), w)
            for x, v in items:
                if x in mine:
                    same(typed(v), typed(mine[x]), "%s of %s" % (w, x))
                else:
                    require(v is getattr(ag, x), "{} of {}", w, x)
        elif w == "values":
            vs = list(ag.values())
            same(len(vs), len(listed()), "number of values")
            for v in mine:
                if v[0] != "_":
                    require(any(typed(x) == typed(mine[v]) for x in vs), "value of {} not listed", v)
        elif w == "items_skip":
            got = dict(ag.items(skip=o["skip"]))
            same(sorted(got), sorted(listed() - set(o["skip"])), "items but some")
        elif w == "items_keys":
            got = list(ag.items(keys=o["ks"]))
            same([typed(x) for x in got], [typed((x, mine.get(x, case["model"].get(x)))) for x in o["ks"]], "some items")
        elif w == "setdefault":
            want = mine.setdefault(k, o["v"])
            same(typed(ag.setdefault(k, o["v"])), typed(want), "setdefault")
        elif w == "update":
            ag.update(o["d"])
            mine.update(o["d"])
            wrote += 1
        for x in KEYS:
            same(typed(ag.__dict__.get(x, MISSING)), typed(mine.get(x, MISSING)), "%s after %s" % (x, w))
    want_other = dict(case["init"])
    want_other["aa"] = 7 if case["model"].get("aa") is None else case["model"]["aa"]
    for x in KEYS:
        same(typed(other.__dict__.get(x, MISSING)), typed(want_other.get(x, MISSING)), "%s of another agent" % x)
    for x, v in case["model"].items():
        same(typed(getattr(model, x)), typed(v), "%s of the model" % x)
    obs.hit(wrote >= 2)


# ---- the initial state of a customised state machine
class Machine(A.FSM):
    @A.default_state
    @A.state
    def first(self):
        return None

    @A.state
    def second(self):
        return None


def check_state(case, obs):
    model = soil.Environment()
    ag = model.add_agent(Machine.w(state_id=case["state"]))
    same(ag.state_id, case["state"], "initial state of the customised copy")
    obs.hit()


TARGETS = [Target("precedence", cases, check, quick=2400, rule="attributes from at least two sources, in a hierarchy of at least two classes"),
           Target("mapping", map_cases, check_map, quick=2400, rule="at least two modifications"),
           Target("custom_state", lambda: fixed(state=st.sampled_from(["first"])), check_state, quick=1, rule="always", shards=1)]
