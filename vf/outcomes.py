"""Simulations with typed reporters, shared by the checks of the exporters (C15, C16, C17)."""
import math
from vf.lib import *

TEXTS = ["a", "b c", "", "None", "nan", "1", "1.0", "NULL", "it's", 'say "hi"', "x,y", "two\nlines", "tab\there", "ñandú €", " lead", "trail ", "%s {x}", "a;b", "'; DROP TABLE env; --", "True", "#c", "\\n"]
ints = st.one_of(st.integers(-3, 9), st.sampled_from([0, 1, -1, 2 ** 31, -2 ** 40, 10 ** 15]))
floats = st.one_of(st.integers(-40, 40).map(lambda k: k / 8), st.sampled_from([1e-9, 1e300, 0.1, -0.0, 1 / 3, 123456789.123]))
texts = st.one_of(st.sampled_from(TEXTS), st.text(alphabet="ab'\",;\n é\t1", max_size=6))

# a column is a kind and a pool of values; missing values never come first, so that the type of a column is known from the start
kinds = {"int": ints, "float": floats, "text": texts, "bool": st.booleans()}
column = st.sampled_from(sorted(kinds)).flatmap(lambda k: st.tuples(st.just(k), st.lists(kinds[k], min_size=1, max_size=4),
                                                                    st.just(False) if k == "bool" else weighted((False, 3), (True, 1))).map(list))
columns = st.lists(column, max_size=3)
columns1 = st.lists(column, min_size=1, max_size=3)
plain = st.one_of(st.integers(-3, 50), st.sampled_from(["a", "it's", "", None, True, 1.5, [1, 2], {"k": "v"}, ["x", None], "two\nlines", "1"]))
# different values that look, or compare, alike
TWINS = [[1, "1"], [True, "True"], [None, "None"], [1.5, "1.5"], ["[1, 2]", [1, 2]], [0, ""], [None, ""], ["a", "a "], ["1", "1.0"], [{"k": "1"}, {"k": 1}], [[1], ["1"]]]
pkeys = st.sampled_from(["alpha", "beta", "gamma", "_hidden"])


def value(col, salt, first):
    kind, pool, optional = col
    if optional and not first and salt % 3 == 1:
        return None
    v = pool[salt % len(pool)]
    return float(v) if kind == "float" else v


class Member(A.NetworkAgent):
    n = 0
    life = None

    def step(self):
        self.n += 1
        if self.life is not None and self.n >= self.life:
            return self.die()
        return [1, 0.5, 2][(self.unique_id + self.n) % 3]


class World(E.Environment):
    def init(self):
        for i in range(self.size):
            self.add_agent(Member, **({"life": self.lives[i % len(self.lives)]} if self.lives else {}))
        if self.rows:
            for r in range(self.rows):
                for t, cols in self.datacollector.tables.items():
                    # rows of a narrow table repeat
                    self.datacollector.add_table_row(t, {"r": r, "who": "%s/%s" % (self.id, self.shift)} if len(cols) > 1 else {"r": r // 2})


def model_reporter(j, col):
    return lambda m: value(col, m.schedule.steps * 2 + int(m.id) * 5 + m.shift + j, m.schedule.steps == 0)


def agent_reporter(j, col):
    return lambda a: value(col, a.model.schedule.steps * 3 + a.unique_id + int(a.model.id) + a.model.shift + j, a.model.schedule.steps == 0)


def definition(spec, mcols, acols, tables, narrow=False):
    """Keyword arguments of a Simulation. `spec`: params, matrix, iterations, steps, size, lives, shift, rows"""
    given = dict(size=spec["size"], lives=spec["lives"], shift=spec["shift"], rows=spec["rows"])
    model = World
    if spec.get("bare"):         # the class carries the settings, so that the simulation may have no parameters at all
        model, given = type("World", (World,), dict(given)), {}
    return dict(model=model, parameters=dict(spec["params"], **given), matrix=dict(spec["matrix"]),
                iterations=spec["iterations"], max_steps=spec["steps"], seed=str(spec.get("seed", "s")),
                model_reporters={"m%d" % j: model_reporter(j, c) for j, c in enumerate(mcols)}, agent_reporters={"a%d" % j: agent_reporter(j, c) for j, c in enumerate(acols)},
                tables={"t%d" % i: ["r"] if narrow else ["r", "who"] for i in range(tables)})


def distinct(vs):
    out = []
    for v in vs:
        if not any(repr(v) == repr(w) or v == w for w in out):
            out.append(v)
    return out


simspec = fixed(params=st.dictionaries(pkeys, plain, max_size=2), matrix=st.dictionaries(st.sampled_from(["gamma", "delta"]), st.one_of(st.lists(plain, min_size=1, max_size=2).map(distinct), st.sampled_from(TWINS)), max_size=2),
                iterations=weighted((1, 6), (2, 6), (3, 5), (11, 1)), steps=st.integers(0, 3), size=st.integers(1, 3), lives=st.sampled_from([[], [], [1], [2, 3]]), shift=st.integers(0, 9), rows=st.integers(0, 2))


class Recorder:
    """An exporter that keeps what every exporter is told."""
    log = []

    def __init__(self, simulation, **kw):
        self.simulation = simulation

    def sim_start(self):
        pass

    def sim_end(self):
        pass

    def iteration_start(self, env):
        pass

    def iteration_end(self, env, params, params_id):
        Recorder.log.append((self.simulation, env, dict(params), params_id))


def clean(v):
    if v is None:
        return None
    if hasattr(v, "item"):
        v = v.item()
    if isinstance(v, float) and math.isnan(v):
        return None
    if isinstance(v, float) and v.is_integer():
        return int(v)
    return v


def model_rows(env):
    """What the model collected, straight from its collector."""
    mv = env.datacollector.model_vars
    n = len(next(iter(mv.values())))
    return [{k: clean(mv[k][s]) for k in mv} for s in range(n)]


def agent_rows(env):
    dc = env.datacollector
    names = list(dc.agent_reporters)
    out = {}
    for step, recs in dc._agent_records.items():
        for rec in recs:
            out[(int(step), int(rec[1]))] = {k: clean(v) for k, v in zip(names, rec[2:])}
    return out


def table_rows(env, name):
    t = env.datacollector.tables[name]
    n = len(next(iter(t.values())))
    return [{k: clean(t[k][i]) for k in t} for i in range(n)]
