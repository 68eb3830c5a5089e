"""Runs the targets of one property over forked shards and writes the evidence."""
import errno, glob, hashlib, importlib, json, os, random, resource, shutil, signal, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.append(os.path.join(HERE, "vendor"))

from vf.core import Violation, Runaway, Obs, canon, norm

JOBS = 8


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class StopShard(BaseException):
    pass


class Alarm:
    """CPU-time limit for one case: load on the machine cannot trip it."""

    def __init__(self, limit):
        self.limit = limit

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, self._fire)
        # again every half second: an exception raised in a callback or destructor is swallowed
        signal.setitimer(signal.ITIMER_VIRTUAL, self.limit, 0.5)

    def _fire(self, *a):
        raise CaseTimeout()

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False


def environmental(ex):
    return isinstance(ex, OSError) and ex.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EAGAIN, errno.ENOMEM)


def describe(ex):
    if isinstance(ex, Violation):
        return str(ex)
    if isinstance(ex, MemoryError):
        return "the case did not terminate within its memory limit"
    if isinstance(ex, CaseTimeout):
        return "the case did not terminate within its CPU limit"
    tb = traceback.extract_tb(ex.__traceback__)
    last = [f for f in tb if "/soil/" in f.filename][-1:] or tb[-1:]
    where = "; ".join("%s:%s in %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in last)
    return "unexpected %s: %s (%s)" % (type(ex).__name__, ex, where)


def run_case(target, case, scratch_root):
    """Returns (obs, None) or (obs, message)."""
    case = norm(case)
    # nothing but the case may decide the outcome
    random.seed(12345)
    try:
        import numpy
        numpy.random.seed(12345)
    except ImportError:
        pass
    scratch = tempfile.mkdtemp(dir=scratch_root, prefix="c")
    obs = Obs(scratch)
    os.chdir(scratch)
    began = time.process_time()
    try:
        with Alarm(target.cpu_limit):
            target.check(case, obs)
        return obs, None
    except (Exception, CaseTimeout, SystemExit) as ex:
        if environmental(ex):
            raise HarnessError("environment: %r" % ex)
        if isinstance(ex, Exception) and "hypothesis" in type(ex).__module__:
            raise
        return obs, describe(ex)
    finally:
        os.chdir(scratch_root)
        shutil.rmtree(scratch, ignore_errors=True)
        used = time.process_time() - began
        if used > target.cpu_limit / 10 and os.environ.get("VERIF_SLOW"):
            with open(os.environ["VERIF_SLOW"], "a") as f:
                f.write("%s %.1f %s\n" % (target.name, used, json.dumps(case, default=repr)[:300]))


def shard_main(prop, target, seed, n, scratch_root, budget, shrink_budget, out):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    res = {"evaluations": 0, "nontrivial": {}, "tags": {}, "samples": [], "fail": None, "truncated": False, "error": None}
    start = time.time()
    state = {"first_fail": None, "best": None, "order": 0}

    def finish():
        with open(out, "w") as f:
            json.dump(res, f)

    def test(case):
        if state["first_fail"] is None and time.time() - start > budget:
            res["truncated"] = True
            raise StopShard()
        if state["first_fail"] is not None and time.time() - state["first_fail"] > shrink_budget:
            raise StopShard()
        obs, msg = run_case(target, case, scratch_root)
        if state["first_fail"] is None:
            res["evaluations"] += 1
            for k, v in obs.tags.items():
                res["tags"][k] = res["tags"].get(k, 0) + (1 if v else 0)
            if obs.nontrivial and msg is None:
                key = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
                if key not in res["nontrivial"]:
                    res["nontrivial"][key] = 1
                    if len(res["samples"]) < 3 and res["evaluations"] % 7 == 3:
                        res["samples"].append(case)
        if msg is not None:
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
            size = len(canon(case))
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, norm(case), msg)
            if "did not terminate" in msg:
                raise StopShard()
            raise Violation(msg)

    try:
        f = given(target.strategy())(test)
        f = hypothesis.seed(seed)(f)
        f = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                     phases=(Phase.generate, Phase.shrink), print_blob=False, report_multiple_bugs=False,
                     suppress_health_check=list(HealthCheck))(f)
        f()
    except StopShard:
        pass
    except HarnessError as ex:
        res["error"] = str(ex)
    except BaseException as ex:
        if state["best"] is None:
            res["error"] = "".join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-3000:]
    if state["best"] is not None:
        res["fail"] = {"case": state["best"][1], "message": state["best"][2]}
    finish()


def quiet():
    """Soil prints progress and logs a lot: none of it is the checks' output."""
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (1, 2):
        os.dup2(null, fd)
    os.close(null)


def forked(fn, timeout):
    """Run fn in a child; returns exit status, or None when it had to be killed."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, 3 << 30))
            if not os.environ.get("VERIF_DEBUG"):
                quiet()
            fn()
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    return pid


def wait_all(pids, deadline):
    left = set(pids)
    while left:
        for pid in list(left):
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                left.discard(pid)
        if left:
            if time.time() > deadline:
                for pid in left:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(pid, 0)
                return False
            time.sleep(0.02)
    return True


def fresh_run(target, case, root, timeout=180):
    """Run one case in a clean forked process: (finished, message)."""
    out = os.path.join(root, "fresh.json")
    if os.path.exists(out):
        os.unlink(out)

    def go():
        obs, msg = run_case(target, case, root)
        with open(out, "w") as f:
            json.dump({"msg": msg}, f)
    ok = wait_all([forked(go, timeout)], time.time() + timeout)
    if not os.path.exists(out):
        return False, None
    with open(out) as f:
        return True, json.load(f)["msg"]


def derive(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:6], "big")


def load_targets(prop):
    mod = importlib.import_module("vf.props." + prop.lower())
    return mod


def assert_repo():
    import soil
    here = os.path.realpath(os.path.dirname(soil.__file__))
    if here != os.path.realpath(os.path.join(REPO, "soil")):
        raise HarnessError("soil was imported from %s" % here)


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.strip():
                    d = json.loads(line)
                    if d.get("status") == "known" and d["property"] == prop:
                        out.append(d)
    return out


def write_replay(prop, target, case, msg, extra=None):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, target, hashlib.sha1(canon(case).encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump({"property": prop, "target": target, "case": case, "message": msg, **(extra or {})}, f, indent=1)
    return path


def run_property(prop, tier, seed):
    t0 = time.time()
    root = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    old = os.getcwd()
    try:
        os.chdir(root)
        err = None
        try:
            mod = load_targets(prop)
            assert_repo()
        except HarnessError:
            raise
        except Exception as ex:
            # the classes a property is checked with cannot even be defined
            msg = "cannot load the code under test: " + describe(ex)
            print(traceback.format_exc(), file=sys.stderr)
            path = write_replay(prop, "load", {}, msg)
            print("%s: %s\nVIOLATION property=%s replay=%s" % (prop, msg, prop, path), flush=True)
            return 1
        return _run(prop, mod, tier, seed, root, t0)
    finally:
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)


def _run(prop, mod, tier, seed, root, t0):
    targets = mod.TARGETS
    byname = {t.name: t for t in targets}
    violations, samples, tags = [], [], {}
    evals, nontrivial, truncated, errors = 0, 0, [], []
    per_target = {}
    budget = float(os.environ.get("VERIF_BUDGET", 240 if tier == "quick" else 6 * 3600))
    scale = float(os.environ.get("VERIF_SCALE", 2.5 if tier == "quick" else 1))

    known = known_findings(prop)
    known_keys = {(k["target"], canon(k["case"])) for k in known}
    for k in known:
        ok, msg = fresh_run(byname[k["target"]], k["case"], root)
        evals += 1
        if msg is not None:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)

    # 1. regression corpus: minimal cases of defects found before
    corpus = sorted(glob.glob(os.path.join(HERE, "corpus", prop, "*.json")))
    ncorpus = 0
    for path in corpus:
        with open(path) as f:
            d = json.load(f)
        t = byname.get(d["target"])
        if t is None or (t.name, canon(d["case"])) in known_keys:
            continue
        ncorpus += 1
        ok, msg = fresh_run(t, d["case"], root)
        if not ok:
            msg = "the case did not terminate"
        if msg is not None:
            violations.append((t.name, d["case"], msg, {"from": os.path.basename(path)}))
    evals += ncorpus

    # 2. generated cases
    if not violations:
        jobs = []
        for t in targets:
            n = int((t.quick if tier == "quick" else t.thorough) * scale)
            shards = t.shards if n >= t.shards else 1
            for s in range(shards):
                jobs.append((t, s, derive(seed, prop, t.name, s), max(1, n // shards)))
        running, results, queue = {}, [], list(jobs)
        hard = time.time() + budget + 300
        shrink_budget = 20 if tier == "quick" else 120
        while queue or running:
            while queue and len(running) < JOBS:
                t, s, sd, n = queue.pop(0)
                sdir = os.path.join(root, "%s-%d" % (t.name, s))
                os.makedirs(sdir)
                out = os.path.join(root, "%s-%d.json" % (t.name, s))
                left = max(5.0, budget - (time.time() - t0))
                pid = forked(lambda: shard_main(prop, t, sd, n, sdir, left, shrink_budget, out), None)
                running[pid] = (t, s, sd, n, out)
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid in running:
                t, s, sd, n, out = running.pop(pid)
                if os.path.exists(out):
                    with open(out) as f:
                        results.append((t, s, sd, n, json.load(f)))
                    shutil.rmtree(os.path.join(root, "%s-%d" % (t.name, s)), ignore_errors=True)
                    if results[-1][4]["fail"]:
                        queue = [] if tier == "quick" else queue
                else:
                    errors.append("shard %s/%d died (status %s)" % (t.name, s, st))
            elif pid == 0:
                if time.time() > hard:
                    for p in running:
                        try:
                            os.killpg(p, signal.SIGKILL)
                        except OSError:
                            pass
                    errors.append("shards did not finish: %s" % [v[0].name for v in running.values()])
                    break
                time.sleep(0.02)
        results.sort(key=lambda r: ([t.name for t in targets].index(r[0].name), r[1]))
        seen = {}
        for t, s, sd, n, r in results:
            evals += r["evaluations"]
            seen.setdefault(t.name, set()).update(r["nontrivial"])
            pt = per_target.setdefault(t.name, {"cases": 0, "nontrivial": 0, "rule": t.rule, "classes": {}})
            pt["cases"] += r["evaluations"]
            for k, v in r["tags"].items():
                pt["classes"][k] = pt["classes"].get(k, 0) + v
            if len([x for x in samples if x["target"] == t.name]) < 2:
                samples += [{"target": t.name, "case": c} for c in r["samples"][:1]]
            if r["truncated"]:
                truncated.append("%s/%d" % (t.name, s))
            if r["error"]:
                errors.append(r["error"])
            if r["fail"]:
                violations.append((t.name, r["fail"]["case"], r["fail"]["message"], {"shard_seed": sd, "shard_examples": n}))
        for k, v in seen.items():
            per_target[k]["nontrivial"] = len(v)
            nontrivial += len(v)

    # 3. report
    reported = []
    done = set()
    for tname, case, msg, extra in sorted(violations, key=lambda v: len(canon(v[1]))):
        if (tname, canon(case)) in known_keys or tname in done:
            continue
        done.add(tname)
        if "shard_seed" in extra:
            ok, m = fresh_run(byname[tname], case, root)
            if ok and m is None:
                extra["needs_session"] = True   # only fails after the earlier cases of its shard
        path = write_replay(prop, tname, case, msg, extra)
        reported.append((path, tname, msg))
    def shorten(x, n=600):
        s = json.dumps(x)
        return x if len(s) <= n else s[:n] + "..."
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nontrivial,
            "rule": "; ".join("%s: %s" % (t.name, t.rule) for t in targets),
            "samples": [shorten(s) for s in samples[:12]] or [shorten({"target": v[0], "case": v[1]}) for v in violations[:2]],
            "per_target": per_target,
            "regression_corpus": ncorpus,
            "truncated_shards": truncated,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"target": t, "message": m[:1000], "replay": p} for p, t, m in reported],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for path, tname, msg in reported:
        print("%s/%s: %s" % (prop, tname, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    if reported:
        return 1
    if errors:
        print("HARNESS ERROR:\n" + "\n".join(errors), file=sys.stderr)
        return 2
    print("%s %s: held on %d cases (%d distinct non-trivial) in %.1fs" % (prop, tier, evals, nontrivial, time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    try:
        mod = load_targets(d["property"])
    except Exception as ex:
        print("VIOLATION property=%s replay=%s (%s)" % (d["property"], path, describe(ex)))
        return 1
    if d["target"] == "load":
        print("the code under test loads")
        return 0
    assert_repo()
    t = {t.name: t for t in mod.TARGETS}[d["target"]]
    root = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        if d.get("needs_session"):
            out = os.path.join(root, "o.json")
            wait_all([forked(lambda: shard_main(d["property"], t, d["shard_seed"], d["shard_examples"], root, 600, 20, out), None)], time.time() + 900)
            with open(out) as f:
                fail = json.load(f)["fail"]
            msg = fail and fail["message"]
        else:
            ok, msg = fresh_run(t, d["case"], root)
            if not ok:
                msg = "the case did not terminate"
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if msg:
        print("%s/%s: %s" % (d["property"], d["target"], msg))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("the case holds")
    return 0


def main():
    args = sys.argv[1:]
    if args[0] == "selftest":
        import hypothesis
        assert_repo()
        print("hypothesis", hypothesis.__version__, "soil from", REPO)
        sys.exit(0)
    if args[0] == "replay":
        sys.exit(replay(os.path.abspath(args[1])))
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        code = run_property(prop, tier, seed)
    except HarnessError as ex:
        print("HARNESS ERROR: %s" % ex, file=sys.stderr)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
