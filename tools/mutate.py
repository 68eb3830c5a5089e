"""Mutation testing of the checks: systematic small edits of /repo/soil, kept when the
stable tests still pass, then given to the checks that execute the edited line.
mutate.py cover              line coverage of every check        -> /tmp/mut/cover.json
mutate.py list               candidate mutants                   -> /tmp/mut/list.json
mutate.py tests [P]          which of them pass the stable tests -> /tmp/mut/tests.jsonl
mutate.py checks [P] [ids]   which of those the checks catch     -> /tmp/mut/checks.jsonl
Scratch copies live under /tmp/mut and are removed afterwards."""
import ast, glob, json, os, random, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mut"
BASE = ROOT + "/base"      # copy of /repo made by `cover`
PY = "/opt/venv/bin/python"
SKIP = ("soil/web/", "soil/visualization.py", "soil/debugging.py", "soil/version.py", "soil/__main__.py", "soil/config.py", "soil/settings.py", "soil/parameters.py")
os.makedirs(ROOT, exist_ok=True)
COVER = r'''
import sys, os, json
sys.path.insert(0, %r)
import vf.runner as R
seen = set()
mon = sys.monitoring
mon.use_tool_id(3, "cov")
def line(code, l):
    if "/soil/" in code.co_filename and code.co_filename.startswith(R.REPO):
        seen.add((code.co_filename[len(R.REPO)+1:], l))
    return mon.DISABLE
mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)
orig = R.shard_main
def wrapped(*a, **k):
    try:
        return orig(*a, **k)
    finally:
        with open("/tmp/mut/cov/%%s.%%d" %% (PROP, os.getpid()), "w") as f:
            json.dump(sorted(seen), f)
R.shard_main = wrapped
PROP = sys.argv[1]
R.main()
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def cover():
    shutil.rmtree(ROOT + "/cov", ignore_errors=True)
    os.makedirs(ROOT + "/cov")
    shutil.rmtree(BASE, ignore_errors=True)
    shutil.copytree("/repo", BASE, symlinks=True)
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", TQDM_DISABLE="1", VERIF_SCALE="0.3", VERIF_SEED="1")
    res = {}
    for i in range(1, 99):
        p = "C%02d" % i
        if not os.path.exists(HERE + "/vf/props/%s.py" % p.lower()):
            break
        r = sh([PY, "-W", "ignore", "-P", "-c", COVER % HERE, p, "quick"], env=env, stdin=subprocess.DEVNULL)
        lines = set()
        for f in glob.glob(ROOT + "/cov/%s.*" % p):
            lines |= {tuple(x) for x in json.load(open(f))}
        print(p, r.returncode, len(lines), flush=True)
        res[p] = sorted(lines)
    json.dump(res, open(ROOT + "/cover.json", "w"))


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out = src, []
        self.lines = src.split("\n")
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = src.encode()

    def pos(self, l, c):
        return self.off[l - 1] + c

    def seg(self, n):
        return self.b[self.pos(n.lineno, n.col_offset):self.pos(n.end_lineno, n.end_col_offset)].decode()

    def put(self, n, new, what):
        s, e = self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)
        if self.b[s:e].decode() != new:
            self.out.append((n.lineno, s, e, new, what))

    def log(self, n):
        s = self.seg(n)
        return s.startswith(("logger.", "self.logger.", "self.debug(", "self.info(", "self.log(", "tqdm.write", "print(", "warnings.", "utils.logger."))

    def visit(self, n):
        m = getattr(self, "m_" + type(n).__name__, None)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.JoinedStr, ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            if isinstance(n, (ast.Raise, ast.Assert)):
                self.put(n, "pass", "drop " + type(n).__name__)
            return
        if isinstance(n, ast.Call) and self.log(n):
            return
        if m:
            m(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d)
            for s in n.body:
                self.visit(s)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.visit(n.value)
            return
        self.generic_visit(n)

    def m_Compare(self, n):
        if len(n.ops) != 1:
            return
        l, r = self.seg(n.left), self.seg(n.comparators[0])
        alt = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
               ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}[type(n.ops[0])]
        for a in alt:
            self.put(n, "(%s %s %s)" % (l, a, r), "cmp " + a)

    def m_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.put(n, "(" + op.join("(%s)" % self.seg(v) for v in n.values) + ")", "bool")
        for v in n.values:
            rest = [x for x in n.values if x is not v]
            o = " and " if isinstance(n.op, ast.And) else " or "
            self.put(n, "(" + o.join("(%s)" % self.seg(x) for x in rest) + ")", "drop operand")

    def m_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put(n, "(%s)" % self.seg(n.operand), "drop not")

    def m_BinOp(self, n):
        alt = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&"}.get(type(n.op))
        if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return
        if alt:
            self.put(n, "(%s %s %s)" % (self.seg(n.left), alt, self.seg(n.right)), "arith")

    def m_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.put(n, str(not v), "const")
        elif isinstance(v, int):
            self.put(n, str(v + 1), "const")
            if v:
                self.put(n, str(v - 1), "const")
        elif isinstance(v, str) and v:
            self.put(n, repr(v + "x"), "str")
        elif v is None:
            self.put(n, "0", "none->0")

    def m_If(self, n):
        self.put(n.test, "True", "if True")
        self.put(n.test, "False", "if False")

    def m_IfExp(self, n):
        self.put(n.test, "True", "if True")
        self.put(n.test, "False", "if False")

    def m_Expr(self, n):
        if isinstance(n.value, ast.Call) and not self.log(n.value):
            self.put(n, "pass", "drop call")

    def m_Assign(self, n):
        self.put(n, "pass", "drop assign")

    def m_AugAssign(self, n):
        self.put(n, "pass", "drop augassign")

    def m_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.put(n, "return None", "return None")

    def m_Continue(self, n):
        self.put(n, "pass", "drop continue")
        self.put(n, "break", "break")

    def m_Break(self, n):
        self.put(n, "pass", "drop break")

    def m_Delete(self, n):
        self.put(n, "pass", "drop del")

    def m_Call(self, n):
        f = self.seg(n.func)
        if f in ("list", "dict", "deepcopy", "copy", "str", "float", "int", "set", "tuple", "reversed", "sorted") and len(n.args) == 1 and not n.keywords:
            self.put(n, "(%s)" % self.seg(n.args[0]), "unwrap " + f)
        for k in n.keywords:
            rest = [self.seg(a) for a in n.args] + [(("%s=%s" % (x.arg, self.seg(x.value))) if x.arg else "**" + self.seg(x.value)) for x in n.keywords if x is not k]
            self.put(n, "%s(%s)" % (f, ", ".join(rest)), "drop kw %s" % k.arg)


def listing():
    cov = json.load(open(ROOT + "/cover.json"))
    by = {}
    for p, ls in cov.items():
        for f, l in ls:
            by.setdefault((f, l), []).append(p)
    out = []
    for f in sorted(sh(["git", "-C", BASE, "ls-files", "soil"]).stdout.split()):
        if not f.endswith(".py") or f.startswith(SKIP):
            continue
        src = open(BASE + "/" + f).read()
        g = Gen(src)
        tree = ast.parse(src)
        g.visit(tree)
        # logical statements span lines: a mutant is executed where its statement is
        span = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for l in range(n.lineno, n.end_lineno + 1):
                    span.setdefault(l, set()).update(range(n.lineno, n.end_lineno + 1))
        seen = set()
        for (l, s, e, new, what) in g.out:
            b = src.encode()
            m = (b[:s] + new.encode() + b[e:]).decode()
            if m in seen:
                continue
            seen.add(m)
            try:
                ast.parse(m)
            except SyntaxError:
                continue
            props = set()
            for x in span.get(l, {l}) | {l}:
                props |= set(by.get((f, x), []))
            out.append({"id": "%s:%d:%d" % (f, l, len(out)), "file": f, "line": l, "s": s, "e": e, "new": new, "old": b[s:e].decode(), "what": what, "props": sorted(props)})
    json.dump(out, open(ROOT + "/list.json", "w"), indent=0)
    print(len(out), sum(1 for o in out if not o["props"]))


KILLS = []
AFFINE = {"time.py": "C01 C29 C03 C28 C02", "environment.py": "C23 C07 C14 C22 C06 C21 C13", "agents/__init__.py": "C22 C06 C04 C03 C23 C05", "fsm.py": "C05 C04", "evented.py": "C09 C10", "events.py": "C09 C10",
          "network_agents.py": "C08 C07", "geo.py": "C08", "exporters.py": "C15 C16 C17 C26", "serialization.py": "C19 C18 C20", "simulation.py": "C13 C12 C02 C25 C18 C24", "soil/__init__.py": "C24",
          "utils.py": "C26 C27", "analysis.py": "C15", "network.py": "C21", "datacollection.py": "C14 C28", "decorators.py": "C14", "Model.py": "C30"}
_l = threading.local()
_n = [0]
_lock = threading.Lock()


def worker_copy():
    if not hasattr(_l, "w"):
        with _lock:
            _n[0] += 1
            _l.w = ROOT + "/w%d_%d" % (os.getpid(), _n[0])
        shutil.copytree(BASE, _l.w, symlinks=True)
    return _l.w


def apply(m, w):
    src = open(BASE + "/" + m["file"]).read().encode()
    open(os.path.join(w, m["file"]), "w").write((src[:m["s"]] + m["new"].encode() + src[m["e"]:]).decode())


def undo(m, w):
    shutil.copyfile(BASE + "/" + m["file"], os.path.join(w, m["file"]))


STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


class Keep:
    def pytest_collection_modifyitems(self, config, items):
        def key(it):
            parts = it.nodeid.split("::")
            return ".".join([parts[0][:-3].replace("/", ".")] + parts[1:-1]) + "::" + parts[-1]
        items[:] = [i for i in items if key(i) in STABLE]
        self.n = len(items)


def child(w):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    os.environ.update(PYTHONHASHSEED="0", MPLBACKEND="Agg", TQDM_DISABLE="1", PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1")
    sys.dont_write_bytecode = True
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(null, fd)
    os.chdir(w)
    sys.path.insert(0, w)
    import pytest
    k = Keep()
    r = pytest.main(["-x", "-q", "-p", "no:cacheprovider", "--timeout=20", "tests"], plugins=[k])
    os._exit(0 if r == 0 and k.n == len(STABLE) else 1)


def tests(m):
    w = worker_copy()
    apply(m, w)
    try:
        pid = os.fork()
        if pid == 0:
            try:
                os.setsid()
                child(w)
            except BaseException:
                os._exit(3)
        import time, signal
        end = time.time() + 120
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() > end:
                os.killpg(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                st = 9
                break
            time.sleep(0.05)
        return m["id"], st == 0
    finally:
        undo(m, w)
        sh(["git", "-C", w, "clean", "-fdq"])


def checks(m):
    w = worker_copy()
    apply(m, w)
    try:
        tried = []
        # checks that caught something nearby go first
        with _lock:
            near = {}
            for f, l, p in KILLS:
                if f == m["file"]:
                    near[p] = near.get(p, 0) + (20 if abs(l - m["line"]) < 12 else 1)
        for p in sorted(m["order"], key=lambda p: -near.get(p, 0))[:int(os.environ.get("MUT_TRIES", "99"))]:
            e2 = dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick", VERIF_SCALE=os.environ.get("MUT_SCALE", "0.5"))
            r = sh([os.path.join(HERE, "check"), p], env=e2)
            tried.append("%s:%d" % (p, r.returncode))
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                with _lock:
                    KILLS.append((m["file"], m["line"], p))
                return m["id"], p, tried
        return m["id"], None, tried
    finally:
        undo(m, w)


def each(fn, todo, n, out):
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)[0] for l in open(out)}
    todo = [m for m in todo if m["id"] not in done]
    print(len(todo), "to do", flush=True)
    if fn is tests:
        import pandas, networkx, mesa, sqlalchemy, scipy.spatial, matplotlib.pyplot, SALib, pytest, jinja2, yaml, tqdm.auto, scipy.stats, nbformat
        import multiprocessing as mp
        pool = mp.get_context("fork").Pool(n)
        with open(out, "a") as f:
            for r in pool.imap_unordered(fn, todo):
                f.write(json.dumps(r) + "\n")
                f.flush()
        pool.close()
        pool.join()
        for d in glob.glob(ROOT + "/w*_1"):
            shutil.rmtree(d, ignore_errors=True)
        return
    from concurrent.futures import as_completed
    with ThreadPoolExecutor(n) as ex, open(out, "a") as f:
        for r in as_completed([ex.submit(fn, m) for m in todo]):
            f.write(json.dumps(r.result()) + "\n")
            f.flush()
    for d in glob.glob(ROOT + "/w%d_*" % os.getpid()):
        shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.remove(d)


if __name__ == "__main__":
    cmd = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 and sys.argv[2].isdigit() else 4
    if cmd == "cover":
        cover()
    elif cmd == "list":
        listing()
    elif cmd == "tests":
        ms = json.load(open(ROOT + "/list.json"))
        ms = [m for m in ms if m["props"]]
        random.Random(1).shuffle(ms)
        each(tests, ms, n, ROOT + "/tests.jsonl")
    elif cmd == "checks":
        ok = {json.loads(l)[0] for l in open(ROOT + "/tests.jsonl") if json.loads(l)[1]}
        ids = set(sys.argv[3:])
        ms = [m for m in json.load(open(ROOT + "/list.json")) if m["id"] in ok and m["props"] and (not ids or m["id"] in ids)]
        cov = json.load(open(ROOT + "/cover.json"))
        size = {}
        for p, ls in cov.items():
            for f, _ in ls:
                size.setdefault(f, {}).setdefault(p, 0)
                size[f][p] += 1
        order = {}
        for l in (open(ROOT + "/checks.jsonl") if os.path.exists(ROOT + "/checks.jsonl") else []):
            i, p, _ = json.loads(l)
            if p:
                order.setdefault(i.split(":")[0], {}).setdefault(p, 0)
                order[i.split(":")[0]][p] += 1
        if not ids:
            ms = [m for m in ms if not (m["file"] == "soil/__init__.py" and m["what"] == "str")]
        for m in ms:
            near = [x for k, v in AFFINE.items() if m["file"].endswith(k) for x in v.split()]
            m["order"] = [p for p in near if p in m["props"]] + sorted((p for p in m["props"] if p not in near), key=lambda p: (-order.get(m["file"], {}).get(p, 0), -size.get(m["file"], {}).get(p, 0)))
        random.Random(2).shuffle(ms)
        each(checks, ms, n, ROOT + "/checks.jsonl")
