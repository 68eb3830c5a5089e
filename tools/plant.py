"""Validates the planted bugs described in tools/seeds/*.py and writes seeded/<id>/.
plant.py [--check] [ids...]   (scratch copies under /tmp/plant, removed afterwards)"""
import glob, importlib.util, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "7a9bb53"
SH = '#!/bin/bash\n# exit 0: the property holds here\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\nD=$(cd "$(dirname "$0")" && pwd)\nexec timeout 200 /opt/venv/bin/python -W ignore "$D/demo.py"\n'
HEAD = '''import os, shutil, sys, tempfile, logging
import soil
from soil import agents as A, environment as E, time as T, simulation as S
logging.getLogger("soil").setLevel(logging.CRITICAL)
_tmp = tempfile.mkdtemp()
os.chdir(_tmp)


def main():
%s

try:
    main()
except AssertionError as ex:
    print("FAILED:", ex)
    sys.exit(1)
except Exception as ex:
    import traceback
    traceback.print_exc()
    sys.exit(2)
finally:
    os.chdir("/")
    shutil.rmtree(_tmp, ignore_errors=True)
'''


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "seeds", "*.py"))):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def indent(t):
    return "\n".join("    " + l if l.strip() else "" for l in t.strip("\n").splitlines())


def one(b, check):
    w = "/tmp/plant/" + b["id"]
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    shutil.copytree(os.environ.get("PLANT_REPO", "/repo"), w, symlinks=True)
    msgs = []
    try:
        orig = 0
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], ["edit matches %d times: %s" % (s.count(old), old[:60])], None
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", w, "diff"]).stdout
        for f in {e[0] for e in b["edits"]}:
            base = set(l.strip() for l in sh(["git", "-C", os.environ.get("PLANT_REPO", "/repo"), "show", BASE + ":" + f]).stdout.splitlines())
            orig += sum(1 for l in sh(["git", "-C", w, "diff", "-U0", "--", f]).stdout.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].strip() in base)
        if not orig:
            msgs.append("no removed original line")
        d = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(HEAD % indent(b["demo"]))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", HOME="/root")
        xml = w + ".xml"
        sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=120", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + xml, "tests"], cwd=w, env=env)
        oj = w + ".json"
        sh(["/usr/bin/python3", "/opt/vp/results.py", oj, "junit:" + xml])
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        missing = stable - set(json.load(open(oj))["passed"])
        for x in (xml, oj):
            os.remove(x)
        if missing:
            msgs.append("stable tests fail: %s" % sorted(missing)[:3])
        sh(["git", "-C", w, "clean", "-fdq"])
        r = sh([os.path.join(d, "demo.sh")], cwd=os.environ.get("PLANT_REPO", "/repo"))
        if r.returncode:
            msgs.append("demo fails on the clean tree: " + r.stdout[-600:])
        r = sh([os.path.join(d, "demo.sh")], cwd=w)
        if r.returncode != 1:
            msgs.append("demo with the patch exits %d: %s" % (r.returncode, r.stdout[-600:]))
        caught = None
        if check:
            e2 = dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick")
            r = sh([os.path.join(HERE, "check"), b["property"]], env=e2)
            caught = "%d %s" % (r.returncode, "VIOLATION" in r.stdout)
            if r.returncode not in (0, 1):
                msgs.append(r.stdout[-500:])
        return b["id"], msgs, caught
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    check = "--check" in args
    ids = [a for a in args if not a.startswith("-")]
    bugs = load()
    todo = [bugs[i] for i in ids] if ids else list(bugs.values())
    with ThreadPoolExecutor(1 if check else 4) as ex:
        for i, msgs, caught in ex.map(lambda b: one(b, check), todo):
            if caught is not None:
                cf = os.path.join(HERE, "tools", "caught.json")
                rec = json.load(open(cf)) if os.path.exists(cf) else {}
                rec[i] = caught == "1 True"
                json.dump(rec, open(cf, "w"), indent=1, sort_keys=True)
            print(i, "OK" if not msgs else "BAD", msgs, "" if caught is None else "check: " + caught, flush=True)
