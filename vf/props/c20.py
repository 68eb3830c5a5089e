"""C20: a template expands to exactly its sampled configurations."""
import copy, itertools, os
import yaml
from vf.lib import *
from vf.core import Target
from soil import serialization as Z

TECHNIQUE = "generated templates (text and structures) expanded and compared with an independent product of lists and samples; recorded sampler calls; malformed templates must be rejected"
ASSUMPTIONS = ["values are numbers with an ordinary decimal form or plain words, so that writing them in YAML needs no quoting", "at least one bound and one value per list"]

CALLS = []


def grid(problem, N=2, shift=0.0):
    """A deterministic sampler, so that the expected product is known."""
    CALLS.append((copy.deepcopy(problem), N, shift))
    return [[lo + (hi - lo) * ((i + j) % N) / N + shift * 0 for j, (lo, hi) in enumerate(problem["bounds"])] for i in range(N)]


class Holder:
    samples = []


def given_samples(problem, N=None):
    CALLS.append((copy.deepcopy(problem), N, None))
    return Holder.samples


WORDS = ["red", "green", "blue1", "x_y"]
VARS = ["x1", "x2", "beta", "rate"]
LISTS = ["kind", "size", "mode"]
bound = st.tuples(st.integers(-8, 8), st.integers(1, 16)).map(lambda t: [t[0] / 4, (t[0] + t[1]) / 4])
lval = st.one_of(st.sampled_from(WORDS), st.integers(0, 99), st.integers(1, 39).map(lambda k: k / 8))


def case_strategy():
    piece = st.one_of(fixed(lit=st.sampled_from(["a", "b-", "n", " and ", "v1 "])), fixed(var=st.integers(0, 6)))
    val = st.one_of(fixed(kind=st.just("bare"), var=st.integers(0, 6)), fixed(kind=st.just("text"), parts=st.lists(piece, min_size=1, max_size=3)),
                    fixed(kind=st.just("const"), v=st.one_of(st.integers(-3, 3), st.booleans(), st.none(), st.sampled_from(["plain", "1", "two words", ""]))),
                    fixed(kind=st.just("expr"), var=st.integers(0, 6)))
    tree = st.recursive(val, lambda s: st.one_of(fixed(kind=st.just("map"), items=st.lists(s, min_size=1, max_size=3)), fixed(kind=st.just("seq"), items=st.lists(s, max_size=3))), max_leaves=6)
    return fixed(form=st.sampled_from(["text", "structure"]), fields=st.lists(tree, min_size=1, max_size=4), bounds=st.lists(bound, min_size=1, max_size=3),
                 lists=st.lists(st.lists(lval, min_size=1, max_size=3), max_size=3), method=st.sampled_from(["grid", "grid", "given", "morris", "latin", "saltelli", "default", "morris_unseeded"]),
                 N=st.integers(1, 4), seed=st.integers(1, 5), via=st.sampled_from(["expand", "expand", "file", "sims", "twice"]), others=st.booleans(), sampled=st.lists(st.lists(st.integers(0, 8), min_size=3, max_size=3), min_size=1, max_size=4))


def names(case):
    return VARS[:len(case["bounds"])], LISTS[:len(case["lists"])]


def vname(case, i):
    b, l = names(case)
    allv = b + l
    return allv[i % len(allv)]


def as_text(t, case, ind=0):
    """The YAML text of a template node (block style for the outer level, flow inside)."""
    k = t["kind"]
    if k == "bare":
        return "{{ %s }}" % vname(case, t["var"])
    if k == "expr":
        return "{{ %s if %s else 0 }}" % (vname(case, t["var"]), "true")
    if k == "text":
        return '"%s"' % "".join(p["lit"] if "lit" in p else "{{%s}}" % vname(case, p["var"]) for p in t["parts"])
    if k == "const":
        return {None: "null", True: "true", False: "false"}[t["v"]] if t["v"] is None or type(t["v"]) is bool else ('"%s"' % t["v"] if isinstance(t["v"], str) else str(t["v"]))
    if k == "map":
        return "{" + ", ".join("k%d: %s" % (i, as_text(x, case)) for i, x in enumerate(t["items"])) + " }"
    return "[" + ", ".join(as_text(x, case) for x in t["items"]) + " ]"


def as_tree(t, case):
    k = t["kind"]
    if k in ("bare", "expr"):
        return as_text(t, case)
    if k == "text":
        return as_text(t, case)[1:-1]
    if k == "const":
        return t["v"]
    if k == "map":
        return {"k%d" % i: as_tree(x, case) for i, x in enumerate(t["items"])}
    return [as_tree(x, case) for x in t["items"]]


def filled(t, case, ps, structure):
    """What the node has to become for the variables `ps`."""
    k = t["kind"]
    if k in ("bare", "expr"):
        v = ps[vname(case, t["var"])]
        return str(v) if structure else v
    if k == "text":
        return "".join(p["lit"] if "lit" in p else str(ps[vname(case, p["var"])]) for p in t["parts"])
    if k == "const":
        return t["v"]
    if k == "map":
        return {"k%d" % i: filled(x, case, ps, structure) for i, x in enumerate(t["items"])}
    return [filled(x, case, ps, structure) for x in t["items"]]


def typed(x):
    if isinstance(x, dict):
        return {k: typed(v) for k, v in x.items()}
    if isinstance(x, list):
        return [typed(v) for v in x]
    return (type(x).__name__, x)


def config(case):
    bn, ln = names(case)
    if len(bn) < 2 and case["method"] in ("morris", "morris_unseeded", "default"):
        case["method"] = "grid"   # SALib's method of Morris needs two variables
    structure = case["form"] == "structure"
    fields = dict(("f%d" % i, t) for i, t in enumerate(case["fields"]))
    if structure:
        template = {k: as_tree(t, case) for k, t in fields.items()}
    else:
        template = "".join("%s: %s\n" % (k, as_text(t, case)) for k, t in fields.items())
    if case["via"] == "sims":
        if structure:
            template = {"model": "vf.props.c20.World", "parameters": template, "group": "g"}
        else:
            template = "model: vf.props.c20.World\ngroup: g\nparameters:\n" + "".join("  " + l + "\n" for l in template.splitlines())
    cfg = {"template": template, "vars": {"bounds": dict(zip(bn, case["bounds"])), "lists": dict(zip(ln, case["lists"]))}}
    if not case["lists"]:
        del cfg["vars"]["lists"]
    m = case["method"]
    if m == "grid":
        cfg["sampler"] = {"method": "vf.props.c20.grid", "N": case["N"]}
    elif m == "given":
        cfg["sampler"] = {"method": "vf.props.c20.given_samples"}
    elif m == "morris":
        cfg["sampler"] = {"N": case["N"] + 1, "seed": case["seed"]}
    elif m == "morris_unseeded":
        cfg["sampler"] = {"method": "SALib.sample.morris.sample", "N": case["N"] + 1}
    elif m == "latin":
        cfg["sampler"] = {"method": "SALib.sample.latin.sample", "N": case["N"], "seed": case["seed"]}
    elif m == "saltelli":
        cfg["sampler"] = {"method": "SALib.sample.saltelli.sample", "N": 2}
    return cfg, fields, structure


class World(E.BaseEnvironment):
    pass


def check(case, obs):
    bn, ln = names(case)
    nb = len(bn)
    cfg, fields, structure = config(case)
    Holder.samples = [[lo + (hi - lo) * s / 8 for s, (lo, hi) in zip(row, case["bounds"])] for row in case["sampled"]]
    keep = copy.deepcopy(cfg)
    del CALLS[:]
    plain = [{"model": "vf.props.c20.World", "parameters": {"a": "{{ x1 }}"}}, {"model": "vf.props.c20.World", "name": "second"}]
    via = case["via"]
    if via in ("expand", "twice"):
        got = list(Z.expand_template(cfg))
        same(cfg, keep, "the template after expanding it")
        if via == "twice":
            n = len(got)
            got = list(Z.expand_template(cfg))
            same(len(got), n, "configurations the second time")
    else:
        docs = [cfg]
        if case["others"]:
            docs = [plain[0], cfg, plain[1]]
        with open("t.yml", "w") as f:
            yaml.dump_all(docs, f, sort_keys=False)
        if via == "file":
            got = Z.load_file(os.path.abspath("t.yml"))
        else:
            got = [{"model": s.model, "parameters": s.parameters, "group": s.group, "name": s.name} for s in S.iter_from_config(os.path.abspath("t.yml"))]
            for g in got:
                require(g["model"] is World, "model {!r}", g["model"])
        if case["others"]:
            first, last = got[0], got[-1]
            got = got[1:-1]
            if via == "file":
                same(first, plain[0], "the configuration before the template")
                same(last, plain[1], "the configuration after the template")
            else:
                same((first["parameters"], last["name"]), (plain[0]["parameters"], "second"), "the plain configurations")
        if via == "sims":
            same({g["group"] for g in got}, {"g"}, "group")
            got = [g["parameters"] for g in got]
    combos = list(itertools.product(*case["lists"]))
    m = case["method"]
    problem = {"num_vars": nb, "names": bn, "bounds": case["bounds"]}
    samples = None
    if m in ("grid", "given"):
        require(len(CALLS) == (2 if via == "twice" else 1), "the sampler was called {} times", len(CALLS))
        same(CALLS[-1][:2], (problem, case["N"] if m == "grid" else None), "what the sampler was given")
        samples = grid(problem, case["N"]) if m == "grid" else Holder.samples
    elif m == "latin":
        from SALib.sample import latin
        samples = latin.sample(problem, case["N"], seed=case["seed"]).tolist()
    elif m == "morris":
        from SALib.sample import morris
        samples = morris.sample(problem, case["N"] + 1, seed=case["seed"]).tolist()
    if samples is not None:
        want = []
        for combo in combos:
            for s in samples:
                ps = dict(zip(ln, combo))
                ps.update(zip(bn, s))
                want.append({k: filled(t, case, ps, structure) for k, t in fields.items()})
        same(len(got), len(want), "number of configurations")
        key = lambda c: repr(sorted(c.items()))
        for a, b in zip(sorted(got, key=key), sorted(want, key=key)):
            same(typed(a), typed(b), "configuration")
    else:
        n = {"default": 100 * (nb + 1), "morris_unseeded": (case["N"] + 1) * (nb + 1), "saltelli": 2 * (2 * nb + 2)}[m]
        same(len(got), n * len(combos), "number of configurations")
        for k, t in fields.items():
            if t["kind"] == "bare" and vname(case, t["var"]) in bn:
                lo, hi = case["bounds"][bn.index(vname(case, t["var"]))]
                for c in got:
                    v = float(c[k])
                    require(lo - 1e-9 <= v <= hi + 1e-9, "value {} outside [{}, {}]", v, lo, hi)
            if t["kind"] == "bare" and vname(case, t["var"]) in ln:
                vals = case["lists"][ln.index(vname(case, t["var"]))]
                for v in set(map(str, vals)):
                    same(sum(1 for c in got if str(c[k]) == v), n * len(combos) * sum(1 for x in vals if str(x) == v) // len(vals), "configurations with %s = %s" % (k, v))
            if t["kind"] == "const":
                require(all(typed(c[k]) == typed(t["v"]) for c in got), "constant {} changed", k)
    obs.tag(m)
    obs.tag(case["form"])
    obs.hit(len(got) > 1 and any(t["kind"] != "const" for t in case["fields"]))


# ---- configurations without a template, and invalid templates
def other_cases():
    leafs = st.one_of(st.integers(-3, 3), st.sampled_from(["{{ x }}", "a", "", "{% if %}"]), st.none(), st.booleans())
    cfg = st.dictionaries(st.sampled_from(["vars", "sampler", "parameters", "name", "Template", "model"]), st.one_of(leafs, st.dictionaries(st.sampled_from(["template", "bounds", "x"]), leafs, max_size=2)), max_size=4)
    return fixed(plain=cfg, bad=st.sampled_from(["novars", "documents", "named", "named_structure", "documents_file"]), bounds=st.lists(bound, min_size=1, max_size=2), N=st.integers(1, 3), nm=st.sampled_from(["var", "none", "empty", "zero"]), sep=st.sampled_from(["---\n", "\n---\n", "...\n---\n"]))


def check_other(case, obs):
    keep = copy.deepcopy(case["plain"])
    got = list(Z.expand_template(case["plain"]))
    same([typed(g) for g in got], [typed(keep)], "a configuration without a template")
    same(case["plain"], keep, "the configuration after expanding it")
    cfg = {"vars": {"bounds": dict(zip(VARS, case["bounds"]))}, "sampler": {"method": "vf.props.c20.grid", "N": case["N"]}, "template": "a: {{ x1 }}\n"}
    bad = case["bad"]
    require(len(list(Z.expand_template(copy.deepcopy(cfg)))) == case["N"], "the valid template")
    if bad == "novars":
        del cfg["vars"]
    elif bad in ("documents", "documents_file"):
        cfg["template"] = "a: {{ x1 }}\n" + case["sep"] + "b: 1\n"
    elif bad == "named":
        cfg["template"] = {"var": "name: s{{ x1 }}\na: 1\n", "none": "name:\na: {{ x1 }}\n", "empty": "a: {{ x1 }}\nname: ''\n", "zero": "a: {{ x1 }}\nname: 0\n"}[case["nm"]]
    else:
        cfg["template"] = {"name": {"var": "{{ x1 }}", "none": None, "empty": "", "zero": 0}[case["nm"]], "a": 1}
    try:
        if bad == "documents_file":
            with open("t.yml", "w") as f:
                yaml.dump(cfg, f)
            got = Z.load_file(os.path.abspath("t.yml"))
        else:
            got = list(Z.expand_template(cfg))
    except ValueError:
        obs.hit()
        return
    raise Violation("invalid template (%s) accepted: %r" % (bad, got))


TARGETS = [Target("expand", case_strategy, check, quick=1600, rule="more than one configuration, depending on some variable"),
           Target("others", other_cases, check_other, quick=400, rule="the invalid template was rejected")]
