"""Writes DESIGN.md from the property modules, the planted bugs and the text below."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, "/repo"]
sys.path.append(os.path.join(HERE, "vendor"))

HEAD = open(os.path.join(HERE, "tools", "design_head.md")).read()
NOTES = {}
cur = None
for l in open(os.path.join(HERE, "tools", "design_notes.md")):
    if l.startswith("## "):
        cur = l[3:].strip()
        NOTES[cur] = ""
    elif cur:
        NOTES[cur] += l
TAIL = open(os.path.join(HERE, "tools", "design_tail.md")).read()

out = [HEAD.rstrip(), "", "## Per property", ""]
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    m = importlib.import_module("vf.props." + p["id"].lower())
    out.append("### %s %s" % (p["id"], p["title"]))
    out.append("")
    out.append("*Decided by*: " + (getattr(m, "TECHNIQUE", None) or m.__doc__.split("\n\n", 1)[1].replace("\n", " ")) + ".")
    out.append("")
    for t in m.TARGETS:
        out.append("- target `%s`: %d cases in the quick tier, %d in the thorough one; non-trivial when: %s." % (t.name, t.quick, t.thorough, t.rule))
    out.append("- domain: " + "; ".join(m.ASSUMPTIONS) + ".")
    if p["id"] in NOTES:
        out.append("")
        out.append(NOTES[p["id"]].strip())
    out.append("")
out.append(TAIL.rstrip())
out += ["", "## Planted bugs", "", "Every change in `seeded/` was written from the property's text and the code, and validated by `tools/plant.py`",
        "(applies, removes an original line, stable tests pass, demonstration passes on the clean tree and fails on the changed one).",
        "`caught` is the quick check of the property named, at VERIF_SEED=1.", "", "| change | property | needs | caught |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    out.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), {True: "yes", False: "no", None: "?"}[caught.get(i)]))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
