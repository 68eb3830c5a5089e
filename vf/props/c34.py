"""C34: plots show exactly the data that was collected."""
from collections import Counter
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from vf.lib import *
from vf.core import Target
from soil import analysis

TECHNIQUE = "the lines of the figures drawn for generated simulations, compared with the collected records counted without pandas"
ASSUMPTIONS = ["some numeric model reporter besides the ignored ones; agent values of one type in each model"]

COLS = ["alpha", "beta", "gamma"]


def cases():
    agent = fixed(born=weighted((0, 4), (1, 1), (2, 1), (3, 1)), acts=st.lists(fixed(v=st.integers(0, 3), w=st.sampled_from([1, 1, 2, 0.5])), min_size=1, max_size=4), end=weighted(("die", 1), ("inf", 2)))
    return fixed(agents=st.lists(agent, min_size=1, max_size=5), mcols=st.lists(st.sampled_from(COLS), min_size=1, max_size=3, unique=True), acols=st.sampled_from([["state"], ["state", "other"], ["other"], []]), kind=st.sampled_from(["str", "int"]),
                 steps=st.booleans(), n=st.integers(1, 8), ignore=weighted((None, 3), ("first", 1), ("none", 1)), frames=weighted((None, 3), ("model", 1), ("agent", 1), ("both", 1)), text=st.booleans(), earlier=st.booleans())


class Ag(A.BaseAgent):
    k = 0

    def step(self):
        if self.k >= len(self.acts):
            return self.die() if self.end == "die" else INF
        a = self.acts[self.k]
        self.k += 1
        self.state = conv(a["v"], self.kind)
        self.other = conv(a["v"] % 2, self.kind)
        return a["w"]


class World(E.Environment):
    alpha = beta = gamma = 0
    text = "x"

    def step(self):
        self.alpha += 2
        self.beta = len(self.schedule.agents) * 1.5
        self.gamma = -self.alpha
        super().step()


def conv(v, kind):
    return "s%d" % v if kind == "str" else v


def check(case, obs):
    mr = {c: c for c in case["mcols"]}
    if case["text"]:
        mr["text"] = "text"
    m = World(model_reporters=mr, agent_reporters={c: c for c in case["acols"]}, seed="p")

    def add(t):
        for a in case["agents"]:
            if a["born"] == t:
                m.add_agent(Ag, acts=a["acts"], end=a["end"], kind=case["kind"], state=conv(0, case["kind"]), other=conv(1, case["kind"]))
    add(0)
    done = 0
    while done < case["n"] and m.running and m.now != INF:
        add(done) if done else None
        m.step()
        done += 1
    dc = m.datacollector
    times = [float(t) for t in dc.model_vars["time"]]
    if len(set(times)) < len(times):
        obs.tag("repeated instant")
        return
    keep = {k: list(v) for k, v in dc.model_vars.items()}
    xs = list(range(len(times))) if case["steps"] else times
    kw = {}
    if case["frames"] in ("model", "both"):
        kw["model_df"] = m.model_df(steps=case["steps"])
    if case["frames"] in ("agent", "both") and case["acols"]:
        kw["agent_df"] = m.agent_df(steps=case["steps"])
    frames = {k: v.copy() for k, v in kw.items()}
    ignored = {"agent_count"}
    if case["ignore"] == "first" and len(case["mcols"]) > 1:
        ignored = {case["mcols"][0]}
        kw["ignore"] = sorted(ignored)
    elif case["ignore"] == "none":
        ignored = set()
        kw["ignore"] = []
    given = list(kw["ignore"]) if "ignore" in kw else None
    if case["steps"]:
        kw["steps"] = True
    plt.close("all")
    try:
        with silent():
            if case["earlier"]:     # an earlier plot must not matter
                analysis.plot(m)
                plt.close("all")
            analysis.plot(m, **kw)
        got, right = {}, {}
        axes = plt.gcf().axes
        for ax in axes:
            for l in ax.lines:
                label = str(l.get_label())
                x, y = [float(v) for v in l.get_xdata()], [float(v) for v in l.get_ydata()]
                dest = got
                if label.endswith(" (right)"):
                    label, dest = label[:-8], right
                require(label not in dest, "two lines for {}", label)
                dest[label] = list(zip(x, y))
    finally:
        plt.close("all")
    if given is not None:
        same(kw["ignore"], given, "the list of ignored columns")
    for k, v in frames.items():
        require(v.equals(kw[k]), "the data that was given has changed")
    same({k: list(v) for k, v in dc.model_vars.items()}, keep, "the collected data")
    names = set(case["mcols"]) | {"agent_count"}
    want = {c: [(float(x), float(v)) for x, v in zip(xs, dc.model_vars[c])] for c in names - ignored}
    same(sorted(got), sorted(want), "columns shown")
    for c in want:
        same(got[c], want[c], "line of %s" % c)
    # agents: how many values of each kind there are at every instant
    counts = {}
    where = []
    if case["acols"]:
        for i, (step, recs) in enumerate(sorted(dc._agent_records.items())):
            recs = list(recs)
            if not recs:
                continue
            where.append(xs[i])
            for r in recs:
                for v in r[2:]:
                    counts.setdefault(v, Counter())[xs[i]] += 1
    want = {k: [(float(x), float(c[x])) for x in where] for k, c in counts.items()}
    got = {(k if case["kind"] == "str" else float(k)): v for k, v in right.items()}
    want = {(k if case["kind"] == "str" else float(k)): v for k, v in want.items()}
    same(sorted(got), sorted(want), "agent values shown")
    for k in want:
        same(got[k], want[k], "line of the agents with value %r" % k)
    obs.tag("steps" if case["steps"] else "times")
    obs.hit(len(counts) > 1 and len(times) > 2)


TARGETS = [Target("plots", cases, check, quick=160, rule="agents have at least two different values, over three or more records")]
