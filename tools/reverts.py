"""Reverts each fix: commit of /repo in a scratch copy and runs the check of its property.
reverts.py [--save] [hashes...]   --save: keeps the shrunk reproduction in corpus/<property>/<hash>.json"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(x):
    p, h, what = x
    w = "/tmp/reverts/" + h
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/reverts", exist_ok=True)
    shutil.copytree("/repo", w, symlinks=True)
    try:
        r = sh(["git", "-C", w, "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-commit", h])
        if r.returncode:
            return x, "conflict"
        r = sh([HERE + "/check", p], env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1"))
        m = re.search(r"VIOLATION property=\S+ replay=(\S+)", r.stdout)
        if not m:
            return x, "MISSED (exit %d)" % r.returncode
        if SAVE:
            d = json.load(open(m.group(1)))
            os.makedirs(HERE + "/corpus/" + p, exist_ok=True)
            json.dump({"target": d["target"], "case": d["case"], "what": what}, open(HERE + "/corpus/%s/%s.json" % (p, h), "w"), indent=1)
        os.remove(m.group(1))
        return x, "caught"
    finally:
        shutil.rmtree(w, ignore_errors=True)


SAVE = "--save" in sys.argv
ids = [a for a in sys.argv[1:] if a[0] != "-"]
todo = []
for l in open(HERE + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m and (not ids or m.group(2) in ids):
        todo.append(m.groups())
with ThreadPoolExecutor(2) as ex:
    for x, r in ex.map(one, todo):
        print(r, *x, flush=True)
