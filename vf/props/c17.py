"""C17: without dumping, nothing is written and results do not change."""
import ast, os, re
from vf.lib import *
from vf.core import Target
from vf import outcomes as O
from soil import exporters

TECHNIQUE = "generated option combinations over prepared folders: file trees compared before and after, results compared with a run without exporters"
ASSUMPTIONS = ["exporters that write the same file (default and SQLite, YAML) are not configured together"]

EXPS = ["default", "SQLite", "YAML", "csv", "gexf", "dummy", "summary", "graphdrawing", "custom"]


def sane(l):
    """The default exporter already includes two of the others."""
    return [e for e in l if e not in ("SQLite", "YAML")] if "default" in l else l


def cases():
    return fixed(sim=O.simspec, mcols=O.columns, acols=O.columns, tables=st.integers(0, 1), exporters=st.lists(st.sampled_from(EXPS), max_size=5, unique=True).map(sane),
                 dump=st.sampled_from([False, False, True]), dry=st.booleans(), backup=st.booleans(), overwrite=st.booleans(), earlier=st.booleans(), files=st.booleans(),
                 outdir=st.sampled_from([None, "out", "new/deep"]), group=st.sampled_from([None, "g"]), debug=st.booleans())


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        out[os.path.relpath(d, root)] = "dir"
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = (fh.read(), os.stat(p).st_mtime_ns)
    return out


class Custom(exporters.Exporter):
    """Writes through the interface of all exporters."""
    def iteration_end(self, env, params, params_id):
        for name, mode, data in (("absolute.txt", "w", "text"), ("absolute.bin", "wb", b"data")):
            with self.output(os.path.join(self.outdir, name), mode=mode) as f:
                f.write(data)
        with self.output("notes/%s.txt" % env.id) as f:
            f.write("n")

    def sim_end(self):
        with self.output("absolute.txt", mode="a") as f:
            f.write("end")


BUILT = []


class Counted(O.World):
    def init(self):
        BUILT.append(1)
        super().init()
        for i, n in enumerate(self.G):
            self.G.nodes[n]["pos"] = (i, 0.5)
            self.G.nodes[n]["note"] = "n%d" % i


def results(res):
    return [(m.id, O.model_rows(m), sorted(O.agent_rows(m).items()), m.random.random(), float(m.now),
             [(n, sorted((k, v) for k, v in d.items() if k != "agent"), getattr(d.get("agent"), "unique_id", None)) for n, d in m.G.nodes(data=True)], sorted(map(str, m.G.edges(data=True)))) for m in res]


def check(case, obs):
    kw = O.definition(case["sim"], case["mcols"], case["acols"], case["tables"])
    kw["model"] = Counted
    common = dict(name="one", group=case["group"], outdir=os.path.join(obs.scratch, case["outdir"] or "soil_output"))
    if case["outdir"] is None:
        del common["outdir"]
    folder = os.path.join(obs.scratch, case["outdir"] or "soil_output", case["group"] or "", "one")
    with silent():
        if case["earlier"]:
            S.Simulation(dump=True, exporters=EXPS[1:-2], **common, **kw).run()
        if case["files"]:
            os.makedirs(folder, exist_ok=True)
            for n in ("one.sqlite", "0.env.csv", "0.gexf", "dummy", "notes.txt"):
                p = os.path.join(folder, n)
                if not os.path.exists(p) and n != "one.sqlite":
                    with open(p, "w") as f:
                        f.write("precious\n")
        plain = S.Simulation(dump=False, exporters=[], **common, **kw).run()
        want = results(plain)
        before = tree(obs.scratch)
        del BUILT[:]
        res = S.Simulation(dump=case["dump"], dry_run=case["dry"], exporters=[Custom if e == "custom" else e for e in case["exporters"]], backup=case["backup"], overwrite=case["overwrite"], **common, **kw).run()
    after = tree(obs.scratch)
    if case["dry"] or not case["dump"]:
        if after != before:
            new = sorted(set(after) - set(before))
            gone = sorted(set(before) - set(after))
            changed = sorted(k for k in before if k in after and before[k] != after[k])
            raise Violation("exporters %r wrote although they should not (dump=%r, dry run=%r): new %r, gone %r, changed %r" % (case["exporters"], case["dump"], case["dry"], new, gone, changed))
    else:
        obs.tag("dumped")
        for p in before:
            require(p in after or case["backup"] or case["overwrite"], "dumping removed {}", p)
        rel = os.path.relpath(folder, obs.scratch)
        for p in set(after) - set(before):
            require(p == rel or p.startswith(rel + os.sep) or rel.startswith(p), "dumping wrote outside of the output folder: {}", p)
        for p, c in before.items():
            if not p.startswith(rel + os.sep) and c != "dir":
                same(after.get(p), c, "a file outside of the output folder")
    if case["dry"]:
        same(len(BUILT), 0, "models built in a dry run")
        same(list(res), [], "results of a dry run")
        obs.tag("dry")
    else:
        same(len(BUILT), len(plain), "models built")
        got = results(res)
        for g, w in zip(got, want):
            if repr(g) != repr(w):
                raise Violation("results change with exporters %r (dump=%r): got %r, expected %r" % (case["exporters"], case["dump"], g, w))
        same(len(got), len(want), "models returned")
    for e in case["exporters"]:
        obs.tag("exp_" + e)
    obs.hit(len(case["exporters"]) > 0 and (case["earlier"] or case["files"] or case["dump"]))


# ---- what would have been written is shown instead
class Notes(exporters.Exporter):
    """Writes several lines to several files."""

    def sim_start(self):
        with self.output("start.txt") as f:
            f.write("started\n")
            f.write("second line \u00e9\n")

    def iteration_end(self, env, *args, **kwargs):
        for n in range(2):
            with self.output("it_%s_%d.txt" % (env.id, n)) as f:
                for l in range(n + 1):
                    f.write("line %d of %s\n" % (l, env.id))


def copy_cases():
    return fixed(sim=O.simspec, mcols=O.columns, acols=O.columns, tables=st.integers(0, 1), exporters=st.sampled_from([["csv"], ["notes"], ["csv", "notes"]]), to=st.sampled_from(["stdout", "given", "given"]))


def check_copy(case, obs):
    kw = O.definition(dict(case["sim"], matrix={}), case["mcols"], case["acols"], case["tables"])
    exps = [{"csv": exporters.csv, "notes": Notes}[e] for e in case["exporters"]]
    real = os.path.join(obs.scratch, "real")
    with silent():
        S.Simulation(dump=True, exporters=exps, name="one", outdir=real, **kw).run()
    files = {}
    folder = os.path.join(real, "one")
    for f in os.listdir(folder):
        with open(os.path.join(folder, f), newline="") as h:
            files[f] = h.read()
    import io
    buf = io.StringIO()
    given = case["to"] == "given"
    with silent() as (out, err):
        params = {"copy_to": buf} if given else {}
        S.Simulation(dump=False, exporters=exps, name="one", outdir=os.path.join(obs.scratch, "none"), exporter_params=params, **kw).run()
    text = buf.getvalue() if given else out.getvalue()
    if given:
        require(":::" not in out.getvalue(), "printed although another stream was given")
    require(not os.path.exists(os.path.join(obs.scratch, "none")), "a folder was created")
    for f, content in files.items():
        require(f in text, "{} is not shown", f)
        # every chunk is announced with the name of its file
        shown = ""
        for part in re.split(r"(?<!\d)" + re.escape(f) + ":::", text)[1:]:
            for g in files:
                part = re.split(r"(?<!\d)" + re.escape(g) + ":::", part)[0]
            shown += ast.literal_eval(part.strip()).decode() if given and part[:2] in ("b'", 'b"') else part     # chunks of bytes may be shown as such
        if not given:            # mixed with other messages
            for l in content.splitlines():
                require(f.endswith(".csv") or l in shown.splitlines(), "line {!r} of {} is not shown", l, f)
            continue
        # the identifiers of the simulation differ from run to run
        head = content.splitlines()[0]      # files are appended to with a single header
        if f.endswith(".csv"):
            shown = "\n".join([head] + [l for l in shown.splitlines() if l != head])
        same(len(shown.splitlines()), len(content.splitlines()), "lines shown of %s" % f)
        if not f.endswith(".csv"):
            same(shown, content, "contents shown of %s" % f)
        else:
            cut = lambda t: [[c for c in l.split(",") if not c.startswith("one_")] for l in t.splitlines()]
            same(cut(shown), cut(content), "contents shown of %s" % f)
    obs.hit(bool(files))


TARGETS = [Target("copies", copy_cases, check_copy, quick=120, rule="some file would be written"),
           Target("nodump", cases, check, quick=400, rule="some exporter is configured, over a folder with earlier results or files, or dumping")]
