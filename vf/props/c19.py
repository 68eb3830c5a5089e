"""C19: values and class names survive serialization."""
import copy, importlib, inspect, os, types
from vf.lib import *
from vf.core import Target
from soil import serialization as Z

TECHNIQUE = "round trip of generated plain values and of classes of real and generated modules with clashing names; generated nestings of source files against a lookup model"
ASSUMPTIONS = ["no infinite numbers inside of collections; top-level classes of importable modules (or of the main script), without a `deserialize` attribute; the names of built-in types stand for parsers of literals, not for classes",
               "one source file is not nested inside itself"]

# ---- plain values (JSON cannot hold them all: tagged encoding)
num = st.one_of(st.integers(-3, 3), st.integers(), st.integers(0, 10 ** 40))
flo = st.one_of(st.sampled_from([0.0, -0.0, 0.1, 1e300, 5e-324, 1e22, -2.5, 3.0]), st.floats(allow_nan=False, allow_infinity=False))
txt = st.one_of(st.sampled_from(["", " ", "None", "True", "1", "[1]", "'", '"', "\\", "\\n", "\n", "\t\r", "str", "{'a': 1}", "é", "\u2028", "\x00", "'''", "set()", "b''", "%s", "{0}"]), st.text(max_size=6))
leaf = st.one_of(num.map(lambda v: ["i", str(v)]), flo.map(lambda v: ["f", v.hex()]), txt.map(lambda v: ["s", v]), st.booleans().map(lambda v: ["b", v]), st.just(["n", 0]), st.one_of(st.binary(max_size=4), st.sampled_from([b"", b"1", b"'", b"\\", b"None", b"abc"])).map(lambda v: ["y", v.hex()]))
hashable = st.recursive(leaf, lambda s: st.lists(s, max_size=3).map(lambda l: ["t", l]), max_leaves=4)
value = st.recursive(leaf, lambda s: st.one_of(
    st.lists(s, max_size=4).map(lambda l: ["l", l]), st.lists(s, max_size=3).map(lambda l: ["t", l]),
    st.lists(hashable, max_size=3).map(lambda l: ["S", l]), st.lists(st.tuples(hashable, s).map(list), max_size=3).map(lambda l: ["d", l])), max_leaves=10)


def build(e):
    k, v = e
    if k == "i":
        return int(v)
    if k == "f":
        return float.fromhex(v)
    if k in "sb":
        return v
    if k == "y":
        return bytes.fromhex(v)
    if k == "n":
        return None
    if k == "l":
        return [build(x) for x in v]
    if k == "t":
        return tuple(build(x) for x in v)
    if k == "S":
        return set(build(x) for x in v)
    return {build(a): build(b) for a, b in v}


def exact(x):
    if isinstance(x, dict):
        return ["dict"] + [[exact(a), exact(b)] for a, b in x.items()]
    if isinstance(x, set):
        return ["set", sorted(repr(exact(v)) for v in x)]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [exact(v) for v in x]
    return [type(x).__name__, repr(x)]


def check_value(case, obs):
    for e in [case["v"]] + case["more"]:
        one_value(e, obs)


def one_value(e, obs):
    v = build(e)
    before = exact(v)
    text, tname = Z.serialize(v)
    same(exact(v), before, "the value after serializing it")
    require(type(text) is str and type(tname) is str, "not text: {!r} {!r}", text, tname)
    require(tname == type(v).__name__ or v is None, "type name {!r} for {!r}", tname, v)
    same(Z.name(v), tname, "name")
    same(exact(Z.deserialize(tname, text)), before, "round trip of %r" % (v,))
    same(exact(Z.deserializer(tname)(text)), before, "deserializer")
    again = Z.serialize(Z.deserialize(tname, text))
    if not any(isinstance(x, str) and x == "S" for x in str(e)):
        same(again, (text, tname), "serializing again")
    obs.hit(isinstance(v, (list, tuple, dict, set)) and len(v) > 0)
    obs.tag(type(v).__name__)


# ---- classes
def _pool():
    import collections, datetime, fractions, decimal, pathlib, enum, logging, argparse, networkx, mesa, mesa.time, mesa.space, pandas, concurrent.futures, email.message, xml.dom.minidom
    import soil.events, soil.exporters, soil.datacollection, soil.parameters, soil.agents.fsm
    mods = [collections, datetime, fractions, decimal, pathlib, logging, argparse, networkx, mesa, mesa.time, mesa.space, concurrent.futures, email.message, xml.dom.minidom,
            soil, soil.events, soil.exporters, soil.datacollection, soil.agents, soil.environment, soil.time, soil.simulation, soil.network]
    out, seen = [], set()
    for m in mods:
        for n, c in sorted(vars(m).items()):
            if not inspect.isclass(c) or id(c) in seen or c.__module__ == "builtins" or "." in c.__qualname__ or hasattr(c, "deserialize"):
                continue
            try:
                if getattr(importlib.import_module(c.__module__), c.__name__) is not c:
                    continue
            except Exception:
                continue
            seen.add(id(c))
            out.append(c)
    return out


POOL = _pool()
NAMES = ["Agent", "Environment", "Simulation", "Graph", "list", "str", "dict", "property", "BaseAgent", "Thing", "Delay", "main", "int", "default", "path", "State", "OrderedDict"]
MODS = ["vfm_one", "vfm_two", "vfm_pkg.inner", "vfm_pkg.soil", "vfm_pkg", "__main__"]
BUILTIN = [int, str, list, dict, set, tuple, float, bool]


def class_cases():
    user = st.lists(fixed(mod=st.sampled_from(MODS), names=st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)), min_size=1, max_size=3, unique_by=lambda x: x["mod"])
    return fixed(user=user, pick=st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=6), known=st.one_of(st.none(), st.lists(st.sampled_from(MODS + ["soil", "soil.agents", "networkx", "collections", "datetime"]), max_size=3, unique=True)),
                 form=st.sampled_from(["list", "dict"]), extra=st.booleans(), use_all=st.booleans())


def check_classes(case, obs):
    main_before = {}
    try:
        mods = {}
        for u in case["user"]:
            parts = u["mod"].split(".")
            for i in range(1, len(parts) + 1):
                full = ".".join(parts[:i])
                if full == "__main__":
                    mods[full] = sys.modules[full]
                elif full not in mods:
                    m = types.ModuleType(full)
                    m.__path__ = []
                    mods[full] = sys.modules[full] = m
                    if i > 1:
                        setattr(mods[".".join(parts[:i - 1])], parts[i - 1], m)
        mine = []
        for u in case["user"]:
            for n in u["names"]:
                if u["mod"] == "__main__":
                    obs.tag("main_script")
                    main_before.setdefault(n, sys.modules["__main__"].__dict__.get(n, main_before))
                c = type(n, (), {"__module__": u["mod"], "x": 1})
                setattr(mods[u["mod"]], n, c)
                mine.append(c)
        # the modules themselves may hide a class of the same name (vfm_pkg.soil)
        classes = [c for c in mine if getattr(mods[c.__module__], c.__name__) is c]
        classes += [POOL[i % len(POOL)] for i in case["pick"]]
        known = case["known"]
        kw = {}
        if known is not None:
            known = [k for k in known if k in mods or not k.startswith("vfm")]
            kw["known_modules"] = known if case["form"] == "list" else {k: None for k in known}
        frozen = copy.copy(kw.get("known_modules"))
        names = {}
        for c in classes:
            text, n = Z.serialize(c, **kw)
            require(type(n) is str, "name {!r}", n)
            same(Z.name(c, **kw), n, "name")
            got = Z.deserialize(n, **kw)
            require(got is c, "{!r} became {!r}, which is {!r}", c, n, got)
            require(Z.deserializer(n, **kw) is c, "deserializer({!r})", n)
            require(n not in names or names[n] is c, "two classes are called {!r}", n)
            names[n] = c
            require(Z.deserialize(c) is c, "a class is not itself")
            if str(c).startswith("<class '"):
                require(Z.deserialize(str(c)) is c, "text form {!r} gives {!r}", str(c), Z.deserialize(str(c)))
        # and again, once everything has been used
        for n, c in names.items():
            require(Z.deserialize(n, **kw) is c, "later, {!r} became {!r}", n, Z.deserialize(n, **kw))
            require(Z.name(c, **kw) == n, "later, {!r} is called {!r}", c, Z.name(c, **kw))
        same(kw.get("known_modules"), frozen, "the list of known modules")
        for b in BUILTIN:
            same(Z.name(b), b.__name__, "name of a built-in type")
            same(Z.deserialize(b.__name__)(), b(), "empty value of a built-in type")
        if case["use_all"]:
            insts = [c for c in mine if Z.deserialize(Z.name(c, **kw), **kw) is c]
            objs = Z.deserialize_all([Z.name(c, **kw) if i % 2 else c for i, c in enumerate(insts)], **kw)
            same([type(o) for o in objs], insts, "instances")
        if case["extra"]:
            special = object()
            require(Z.deserialize("Agent", globs={"Agent": special}) is special, "explicit names")
        for bad in ("NoSuchClassAnywhere", "no_such_module.Thing", "soil.NoSuchClass", "vfm_none.Agent"):
            try:
                r = Z.deserialize(bad, **kw)
            except ValueError:
                continue
            raise Violation("unknown name %r gave %r" % (bad, r))
        same_name = len({c.__name__ for c in classes}) < len(set(classes)) or any(hasattr(soil, c.__name__) or hasattr(Z.builtins(), c.__name__) for c in mine)
        obs.hit(same_name)
    finally:
        for k, v in main_before.items():
            if v is main_before:
                delattr(sys.modules["__main__"], k)
            else:
                setattr(sys.modules["__main__"], k, v)
        for k in list(sys.modules):
            if k.startswith("vfm"):
                del sys.modules[k]
        for k in list(Z.KNOWN_MODULES):
            if k.startswith("vfm"):
                del Z.KNOWN_MODULES[k]


# ---- source files
FILES = ["a.py", "b.py", "sub/a.py", "c.py"] + ["f%d.py" % i for i in range(12)]
LOCAL = ["Agent", "Environment", "Mine", "Other", "list_", "BaseAgent"]


def source_cases():
    names = st.lists(st.sampled_from(LOCAL), min_size=1, max_size=3, unique=True)
    node = st.recursive(st.just([]), lambda s: st.lists(fixed(f=st.integers(0, 3), names=names, fails=weighted((None, 5), ("load", 1), ("syntax", 1)), breaks=weighted((False, 4), (True, 1)),
                                                              path=st.sampled_from(["abs", "rel", "dot"]), inner=s), max_size=3), max_leaves=6)
    # a chain of many files, each one used inside of the previous one
    link = fixed(names=names, path=st.sampled_from(["abs", "rel", "dot"]), inner=weighted(([], 6), ([{"f": 0, "names": ["Mine", "Agent"], "fails": None, "breaks": False, "path": "abs", "inner": []}], 1)))

    def nest(links):
        out = []
        for i in range(len(links) - 1, -1, -1):
            out = [dict(links[i], f=len(FILES) - 1 - i, fails=None, breaks=False, inner=links[i]["inner"] + out)]
        return out
    chain = st.lists(link, min_size=4, max_size=14).map(nest)
    return fixed(top=st.one_of(node, node, chain), none=st.booleans())


class Boom(Exception):
    pass


def check_source(case, obs):
    os.makedirs("sub", exist_ok=True)
    nothing = (dict(Z.KNOWN_MODULES), dict(Z.MODULE_FILES), list(sys.path))
    depth = [0]

    def lookup(name):
        try:
            return Z.deserialize(name)
        except ValueError:
            return None

    def verify(stack, seen):
        for n in LOCAL:
            want = None
            for scope in reversed(stack):
                if n in scope:
                    want = scope[n]
                    break
            else:
                want = getattr(soil, n, None)
            got = lookup(n)
            if isinstance(want, str):
                require(isinstance(got, type) and getattr(got, "tag", None) == want, "{} is {!r}, expected the one of {}", n, got, want)
                nm = Z.name(got)
                require(lookup(nm) is got, "{!r} is called {!r} but that is {!r}", got, nm, lookup(nm))
                seen[want] = got
            else:
                require(got is want, "{} is {!r}, expected {!r}", n, got, want)
            full = getattr(soil, n, None)
            if full is not None:
                nm = Z.name(full)
                require(lookup(nm) is full, "with source files in use, {!r} is called {!r} which is {!r}", full, nm, lookup(nm))
        for scope in stack:
            for n, tag in scope.items():
                if tag in seen:
                    nm = Z.name(seen[tag])
                    require(lookup(nm) is seen[tag], "{!r} of an outer file is called {!r}, which is {!r}", n, nm, lookup(nm))

    count = [0]

    def walk(nodes, stack, using, seen):
        for nd in nodes:
            f = FILES[nd["f"]]
            if f in using:
                continue
            count[0] += 1
            scope = {n: "%s:%s:%d" % (f, n, count[0]) for n in nd["names"]}
            with open(f, "w") as h:
                for n, tag in scope.items():
                    h.write("class %s:\n    tag = %r\n\n" % (n, tag))
                if nd["fails"] == "load":
                    h.write("raise RuntimeError('no')\n")
                if nd["fails"] == "syntax":
                    h.write("class (:\n")
            p = {"abs": os.path.abspath(f), "rel": f, "dot": "./" + f}[nd["path"]]
            try:
                with Z.with_source(p):
                    require(not nd["fails"], "a file that fails to load was used")
                    verify(stack + [scope], seen)
                    depth[0] = max(depth[0], len(stack) + 1)
                    walk(nd["inner"], stack + [scope], using | {f}, seen)
                    verify(stack + [scope], seen)
                    if nd["breaks"]:
                        raise Boom()
            except Boom:
                require(nd["breaks"], "boom")
            except (RuntimeError, SyntaxError):
                require(nd["fails"], "loading failed")
                obs.tag("bad file")
            verify(stack, seen)

    with Z.with_source(None):
        verify([], {})
    walk(case["top"], [], frozenset(), {})
    verify([], {})
    after = (dict(Z.KNOWN_MODULES), dict(Z.MODULE_FILES), list(sys.path))
    same([set(after[0]), after[1], after[2]], [set(nothing[0]), nothing[1], nothing[2]], "what is known once the files are not in use")
    obs.hit(count[0] >= 2)
    if depth[0] > 1:
        obs.tag("nested")


TARGETS = [Target("values", lambda: fixed(v=value, more=st.lists(st.one_of(leaf, leaf, st.sampled_from(["inf", "-inf", "nan"]).map(lambda v: ["f", v])), max_size=4)), check_value, quick=6000, rule="a non-empty container"),
           Target("classes", class_cases, check_classes, quick=1600, rule="some class shares its name with another one, a soil class or a built-in"),
           Target("sources", source_cases, check_source, quick=1200, rule="at least two source files are used")]
