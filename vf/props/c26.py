"""C26: backups never lose data."""
import io, os, sqlite3
from collections import Counter
from vf.lib import *
from vf.core import Target
from vf import outcomes as O
from vf.props.c17 import tree
from soil import utils, exporters as X

TECHNIQUE = "generated histories of writes and runs over one output folder, against a model of the current and archived contents of every file"
ASSUMPTIONS = ["no result file is itself called 'backup'"]

NAMES = ["a.txt", "a", "data.sqlite", "with space.csv", "x@y", "ñ.yml", "sub/a.txt", "sub/deep/b.bin", ".hidden"]
chunk = st.sampled_from(["", "one", "two\n", "ñ€\n", "x" * 300, "a\r\nb", "nul\x00"])
wop = fixed(op=weighted(("open", 5), ("output", 4), ("backup", 2), ("move", 2), ("plain", 1), ("reuse", 1), ("read", 1)), name=st.sampled_from(NAMES + ["a.txt", "sub/a.txt"] * 4), mode=weighted(("w", 5), ("wb", 3), ("a", 2), ("ab", 1), ("w+", 1), ("wt", 1)),
            text=chunk, backup=weighted((True, 3), (False, 1), (None, 1)), fail=weighted((False, 6), (True, 1)), rel=st.booleans())


def write_cases():
    return fixed(ops=st.lists(wop, min_size=1, max_size=16), folder=st.sampled_from(["out", "new/deep"]), earlier=st.booleans())


def archived(out, name):
    """Contents of the files kept in the backup folder next to a file, by file name."""
    d = os.path.join(out, os.path.dirname(name), "backup")
    res = {}
    if os.path.isdir(d):
        for f in os.listdir(d):
            with open(os.path.join(d, f), "rb") as fh:
                res[os.path.join(d, f)] = fh.read()
    return res


class Sim:
    def __init__(self, backup, group=None, name="one"):
        self.backup, self.group, self.name = backup, group, name


def check_writes(case, obs):
    out = os.path.join(obs.scratch, case["folder"], "one")
    other = os.path.join(obs.scratch, "precious.txt")
    with open(other, "w") as f:
        f.write("do not touch")
    now, kept = {}, {}     # model: name -> bytes, folder -> Counter of archived bytes
    if case["earlier"]:
        for n in ("a.txt", "sub/a.txt"):
            p = os.path.join(out, n)
            os.makedirs(os.path.join(os.path.dirname(p), "backup"), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b"earlier")
            with open(os.path.join(os.path.dirname(p), "backup", os.path.basename(p) + "@2001-01-01_00.00.00"), "wb") as f:
                f.write(b"oldest")
            now[n] = b"earlier"
            kept.setdefault(os.path.dirname(n), Counter())[b"oldest"] += 1
    replaced = 0
    for i, o in enumerate(case["ops"]):
        n, mode = o["name"], o["mode"]
        p = os.path.join(out, n)
        arg = os.path.relpath(p) if o["rel"] else p
        arch = kept.setdefault(os.path.dirname(n), Counter())
        data = o["text"].encode() if "b" in mode else o["text"]
        raw = o["text"].encode()
        before = now.get(n)
        what = "operation %d (%s %s, mode %s, backup=%r)" % (i, o["op"], n, mode, o["backup"])
        if o["op"] in ("backup", "move"):
            res = utils.try_backup(arg, remove=o["op"] == "move")
            if before is None:
                same(res, None, what + ": backup of a missing file")
            else:
                with open(res, "rb") as f:
                    same(f.read(), before, what + ": the backup")
                arch[before] += 1
                if o["op"] == "move":
                    del now[n]
        elif o["op"] == "plain":
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(raw)
            now[n] = raw
        elif o["op"] == "read":
            if before is not None:
                with utils.safe_open(arg, "rb") as f:
                    same(f.read(), before, what)
        elif o["op"] == "reuse":
            buf = io.BytesIO() if "b" in mode else io.StringIO()
            with utils.open_or_reuse(buf, mode=mode) as f:
                f.write(data)
            same(buf.getvalue(), data, what + ": an open file is used as it is")
        else:
            bk = {} if o["backup"] is None else {"backup": o["backup"]}
            enc = {} if "b" in mode else {"encoding": "utf-8", "newline": ""}
            on = o["backup"] is not False
            if o["op"] == "output":
                on = bool(o["backup"])
                ex = X.Exporter(Sim(on), outdir=os.path.join(obs.scratch, case["folder"]), dump=True)
                cm = ex.output(n if not o["rel"] else p, mode=mode, **enc)
            else:
                cm = utils.safe_open(arg, mode, **bk, **enc)
            try:
                with cm as f:
                    f.write(data)
                    if o["fail"]:
                        raise KeyError("fails while writing")
            except KeyError:
                pass
            if before is not None and on and "w" in mode:
                arch[before] += 1
                replaced += 1
            now[n] = (before or b"") + raw if "a" in mode else raw
        for m, content in now.items():
            q = os.path.join(out, m)
            require(os.path.exists(q), "{}: {} is gone", what, m)
            with open(q, "rb") as f:
                same(f.read(), content, "%s: contents of %s" % (what, m))
        for d, c in kept.items():
            same(Counter(archived(out, os.path.join(d, "x")).values()), +c, "%s: versions kept in %r" % (what, os.path.join(d, "backup")))
        for m in NAMES:
            if m not in now:
                require(not os.path.exists(os.path.join(out, m)), "{}: {} should not exist", what, m)
        with open(other) as f:
            same(f.read(), "do not touch", "a file outside of the output folder")
    obs.tag("replaced", replaced)
    obs.hit(replaced > 1)


# ---- complete runs
rop = fixed(backup=weighted((True, 3), (False, 1)), overwrite=st.booleans(), exporters=st.lists(st.sampled_from(["SQLite", "csv", "gexf", "dummy", "YAML"]), min_size=1, max_size=4, unique=True),
            sim=O.simspec, dump=weighted((True, 5), (False, 1)), touch=weighted((False, 4), (True, 1)))


def run_cases():
    return fixed(ops=st.lists(rop, min_size=2, max_size=4), name=st.sampled_from(["one", "a b"]), group=st.sampled_from([None, "g"]), mcols=O.columns, cols=O.columns1)


APPEND = (".csv",)


def check_runs(case, obs):
    out = os.path.join(obs.scratch, "out")
    folder = os.path.join(out, case["group"] or "", case["name"])
    with open(os.path.join(obs.scratch, "precious.txt"), "w") as f:
        f.write("do not touch")
    replaced = 0
    for i, o in enumerate(case["ops"]):
        spec = dict(o["sim"], shift=i, matrix={} if "gexf" in o["exporters"] else o["sim"]["matrix"])
        kw = O.definition(spec, case["mcols"], case["cols"], 0)
        if o["touch"] and os.path.isdir(folder):
            for f in os.listdir(folder):
                p = os.path.join(folder, f)
                if os.path.isfile(p) and not p.endswith((".sqlite", ".csv")):
                    with open(p, "a") as h:
                        h.write("edited by hand %d\n" % i)
        before = {p: c[0] for p, c in tree(obs.scratch).items() if c != "dir"}
        with silent():
            sim = S.Simulation(name=case["name"], group=case["group"], outdir=out, dump=o["dump"], backup=o["backup"], overwrite=o["overwrite"], exporters=list(o["exporters"]), **kw)
            res = sim.run()
        after = {p: c[0] for p, c in tree(obs.scratch).items() if c != "dir"}
        what = "run %d (backup=%r, overwrite=%r, dump=%r, %s)" % (i, o["backup"], o["overwrite"], o["dump"], o["exporters"])
        rel = os.path.relpath(folder, obs.scratch)
        new_backups = Counter()
        for p, c in after.items():
            if "/backup/" in p and p not in before:
                new_backups[c] += 1
        if not o["backup"] or not o["dump"]:
            same(sum(new_backups.values()), 0, what + ": backups made")
        for p, c in before.items():
            if "/backup/" in p or not p.startswith(rel + os.sep):
                same(after.get(p), c, "%s: %s, which should not change" % (what, p))
                continue
            if p.endswith(".csv") and o["dump"]:
                require(after.get(p, b"").startswith(c), "{}: earlier rows of {} are gone", what, p)
                continue
            if after.get(p) == c:
                continue
            if p not in after:
                raise Violation("%s: %s is gone" % (what, p))
            require(o["dump"], "{}: {} changed without dumping", what, p)
            if o["backup"]:
                require(new_backups[c] > 0, "{}: {} was replaced and its previous contents are not in the backup folder", what, p)
                new_backups[c] -= 1
                replaced += 1
                where = os.path.join(os.path.dirname(p), "backup")
                require(any(q.startswith(where + os.sep) and os.path.basename(q).startswith(os.path.basename(p)) for q in after if q not in before and after[q] == c),
                        "{}: the backup of {} is not in {}", what, p, where)
        if o["backup"] and o["dump"] and "dummy" in o["exporters"]:
            # written once at the start, replaced after each iteration
            fresh = [p for p in after if p not in before and "/backup/dummy" in p]
            same(len(fresh), len(res) + (os.path.join(rel, "dummy") in before), what + ": versions of a file that the run itself replaces")
        if o["backup"] and o["dump"] and "SQLite" in o["exporters"]:
            con = sqlite3.connect(os.path.join(folder, case["name"] + ".sqlite"))
            ids = {r[0] for r in con.execute("select distinct simulation_id from configuration")}
            con.close()
            same(ids, {sim.id}, what + ": simulations in a database that starts anew")
        for p in after:
            require(p in before or p.startswith(rel + os.sep), "{}: {} is outside of the output folder", what, p)
    obs.tag("replaced", replaced)
    obs.hit(replaced > 1)


TARGETS = [Target("writes", write_cases, check_writes, quick=1200, rule="at least two files are replaced with backups enabled"),
           Target("runs", run_cases, check_runs, quick=120, rule="complete runs replace at least two files with backups enabled")]
