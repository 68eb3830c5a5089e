"""C35: the debugger shows the simulation as it is, stops where it was told to, and changes nothing.

The prompts of the real debugger are answered by the harness, which knows at every prompt in which frame the run has
stopped. A run without debugging gives the order of the activations; the model of the breakpoints over that order says
where the next stop has to be."""
import functools, gc, re
from vf.lib import *
from vf.core import Target
from soil import debugging as D

TECHNIQUE = "model-based testing of generated debugging sessions: stops, listings and final results against a run without debugging and a model of the breakpoints"
ASSUMPTIONS = ["prompts answered through the standard input of the debugger; states that belong to FSM agents in the model"]


class Talk(A.FSM):
    """States a, b and c. Each activation follows the agent's script."""
    def init(self):
        self.k = 0
        self.mood = 10 * self.unique_id
        self.money = -1
        self.mask = "m%d" % self.unique_id

    def act(self, where):
        self.model.log.append((self.model.schedule.steps, float(self.now), self.unique_id, where))
        if self.model.entry == "agent" and len(self.model.log) == 3 and self.model.debugging:
            D.set_trace()
        s = self.script[self.k % len(self.script)]
        self.k += 1
        self.mood += 1
        self.money = self.k
        return self.follow(*s)

    def follow(self, nxt, wait):
        if nxt == "die":
            return self.dead
        nxt = getattr(self, nxt) if nxt in self.states() else self.a
        if wait is None:
            return nxt
        return nxt.delay(wait)

    @A.default_state
    @A.state
    def a(self):
        return self.act("Talk.a")

    @A.state
    def b(self):
        return self.act("Talk.b")

    @A.state
    def c(self):
        nxt = self.act("Talk.c")
        return nxt


class Loud(Talk):
    @A.state
    def b(self):
        return self.act("Loud.b")

    @A.state
    def d(self):
        return self.act("Loud.d")


class Lazy(Talk):
    @A.state
    def c(self):
        nxt = self.act("Lazy.c")
        yield self.delay(1)
        return nxt


class Plain(A.BaseAgent):
    def init(self):
        self.mood = self.money = 0
        self.mask = "p"

    def step(self):
        self.mood += 1
        return 1


CLASSES = {"Talk": Talk, "Loud": Loud, "Lazy": Lazy, "Plain": Plain}
WHERE = {("Talk", s): "Talk." + s for s in "abc"}
WHERE.update({("Loud", "a"): "Talk.a", ("Loud", "b"): "Loud.b", ("Loud", "c"): "Talk.c", ("Loud", "d"): "Loud.d",
              ("Lazy", "a"): "Talk.a", ("Lazy", "b"): "Talk.b", ("Lazy", "c"): "Lazy.c"})


def report(model):
    if model.entry == "reporter" and model.schedule.steps == 2 and model.debugging:
        D.set_trace()
    return 1


class World(E.Environment):
    def init(self):
        self.log = []
        for kind, script in self.people:
            self.add_agent(CLASSES[kind], **({"script": script} if kind != "Plain" else {}))

    def step(self):
        if self.entry == "model" and self.schedule.steps in (1, 3) and self.debugging:
            D.set_trace()
        super().step()


class World2(World):
    """The model does not have a step of its own in the module of the agents."""
    step = E.Environment.step


def cases():
    state = st.sampled_from(["a", "b", "b", "c", "d"])
    move = st.tuples(weighted(("a", 3), ("b", 3), ("c", 3), ("d", 2), ("die", 1)), st.sampled_from([None, None, 1, 2, 0.5])).map(list)
    people = st.lists(st.tuples(st.sampled_from(["Talk", "Loud", "Lazy", "Plain"]), st.lists(move, min_size=1, max_size=5)).map(list), min_size=2, max_size=5)
    ids = st.one_of(st.lists(st.integers(0, 4), max_size=2, unique=True), st.lists(st.integers(0, 4), min_size=3, max_size=4, unique=True))
    klass = st.sampled_from([None, None, "Talk", "Loud", "Lazy"])
    cmd = st.one_of(
        st.tuples(st.sampled_from(["bs", "break_state"]), klass, state, ids),
        st.tuples(st.sampled_from(["bs", "break_state"]), klass, state, ids),
        st.tuples(st.sampled_from(["cs", "continue_state"]), klass, state, ids),
        st.tuples(st.sampled_from(["bss", "break_state_self"]), st.just(None), state, st.just([])),
        st.tuples(st.sampled_from(["bstep", "break_step"]), st.just(None), st.just(""), st.just([])),
        st.tuples(st.sampled_from(["sl", "soil_list"]), st.just(None), st.just(""), st.just([])),
        st.tuples(st.sampled_from(["sa", "soil_agents", "aa", "soil_agent"]), st.just(None), st.sampled_from(["", "mood", "mood mask", "m", "mo", "k", "money"]), st.just([])),
        st.tuples(st.just("bad"), st.just(None), st.sampled_from(["bs Nobody:a", "bs nowhere", "bs", "cs nowhere", "bs Talk:nowhere"]), st.just([])),
        st.tuples(st.just("c"), st.just(None), st.just(""), st.just([])),
        st.tuples(st.just("c"), st.just(None), st.just(""), st.just([])),
    ).map(list)
    return fixed(people=people, cmds=st.lists(cmd, min_size=3, max_size=14), entry=weighted(("debug", 3), ("model", 2), ("agent", 2), ("reporter", 1), ("main", 1)), world=st.sampled_from(["World", "World2"]), n=st.integers(3, 8), seed=st.integers(0, 10 ** 6))


class Session:
    """Answers the prompts and checks every stop against the predicted one."""
    def __init__(self, case, ref, steps, obs):
        self.case, self.ref, self.steps, self.obs = case, ref, steps, obs
        self.queue = list(case["cmds"])
        self.out = io.StringIO()
        self.model = None
        self.bps = {}            # where -> (temporary, ids)
        self.step_bp = None
        self.expected = ("entry",)
        self.pending = None      # check of the output of the last command
        self.error = None
        self.stops = 0
        self.prompts = 0
        self.moved = True
        self.traced = False
        self.at = 0              # activations that have begun

    # -- input and output of the debugger
    def readline(self):
        self.prompts += 1
        if self.error or self.prompts > 400:
            return "q\n"
        try:
            return self.answer() + "\n"
        except Violation as ex:
            self.error = ex
            return "q\n"

    def write(self, text):
        self.out.write(text)

    def flush(self):
        pass

    # -- the model
    def targets(self, klass, state):
        names = [klass] if klass else ["Talk", "Loud", "Lazy"]
        if klass is None:
            names = [k for k in names if k in self.known()]
        return sorted({WHERE[k, state] for k in names if (k, state) in WHERE})

    def known(self):
        """Classes that the debugger can find when none is given."""
        f = D.debugger.curframe
        names = {type(a).__name__ for a in self.model.schedule.agents}
        if f.f_globals.get("Talk") is Talk:
            names |= {"Talk", "Loud", "Lazy"}
        return names

    def predict(self):
        """Where the run stops next, if it goes on from here."""
        for j in range(max(self.at, len(self.model.log)), len(self.ref)):
            steps, t, uid, where = self.ref[j]
            if self.step_bp is not None and steps >= self.step_bp:
                break
            if self.again() and steps >= 3:
                break
            if where in self.bps and (not self.bps[where][1] or uid in self.bps[where][1]):
                return ("state", j)
        if self.step_bp is not None and self.step_bp < self.steps and not (self.again() and self.step_bp > 3):
            return ("step", self.step_bp)
        if self.again() and self.steps > 3:
            return ("again", 3)
        return ("end",)

    def again(self):
        """The model calls set_trace for the second time in its fourth step."""
        return self.case["entry"] == "model" and self.case["world"] == "World" and not self.traced

    def arrive(self):
        """The run has stopped: is this the right place?"""
        f = D.debugger.curframe
        this = f.f_locals.get("self")
        name = f.f_code.co_name
        want = self.expected
        here = "stopped in %s of %r after %d activations" % (name, this, len(self.model.log) if self.model else -1)
        if want[0] == "entry":
            self.model = this.model if isinstance(this, mesa.Agent) else this if isinstance(this, mesa.Model) else f.f_locals.get("model")
            if self.case["entry"] in ("debug", "main"):
                require(isinstance(self.model, E.Environment) and len(self.model.log) == 0, "debugging does not begin before the first step: {}", here)
            return
        self.stops += 1
        if want[0] == "state":
            j = want[1]
            steps, t, uid, where = self.ref[j]
            require(isinstance(this, Talk) and len(self.model.log) == j and this.unique_id == uid and name == where.split(".")[1] and float(self.model.now) == t,
                    "{}; it should stop before activation {} ({!r}); breakpoints {!r}", here, j, self.ref[j], self.bps)
            self.at = j + 1
            if self.bps[where][0]:
                del self.bps[where]
                self.obs.tag("temporary")
            self.obs.tag("state stop")
            if f.f_code.co_filename != __file__:
                raise Violation("stopped in %s" % f.f_code.co_filename)
            self.obs.hit()
        elif want[0] == "again":
            require(name == "step" and this is self.model and self.model.schedule.steps == 3 and len(self.model.log) == sum(e[0] < 3 for e in self.ref), "{}; it should stop where set_trace is called", here)
            self.traced = True
            self.obs.tag("set_trace again")
        elif want[0] == "end" and self.case["entry"] == "main" and name == "main":
            # the last prompt, when all simulations are over
            self.expected = ("over",)
            self.obs.tag("last prompt")
        elif want[0] == "step":
            require(name == "step" and this is self.model and self.model.schedule.steps == want[1] and len(self.model.log) == sum(e[0] < want[1] for e in self.ref),
                    "{}, at step {}; it should stop before step {}", here, self.model.schedule.steps, want[1])
            self.step_bp = None
            self.obs.tag("step stop")
            self.obs.hit()
        else:
            raise Violation(here + "; there is nothing to stop at. Breakpoints: %r" % (self.bps,))

    def go(self, text):
        self.expected = self.predict()
        self.moved = True
        return text

    def answer(self):
        if self.pending:
            check, self.pending = self.pending, None
            check(self.fresh())
        if self.moved:
            self.arrive()
            self.moved = False
        self.fresh()
        while True:
            if not self.queue:
                return "c" if self.expected[0] == "over" else self.go("c")
            cmd, klass, arg, ids = self.queue.pop(0)
            if self.expected[0] == "over":
                if cmd in ("sl", "sa", "aa", "bss"):
                    return cmd
                continue
            if cmd == "c":
                return self.go("c")
            f = D.debugger.curframe
            this = f.f_locals.get("self")
            agent = this if isinstance(this, mesa.Agent) else None
            if cmd in ("sl", "soil_list"):
                self.pending = self.listed
                self.obs.tag("listing")
                return cmd
            if cmd in ("sa", "soil_agents"):
                self.pending = partial(self.shown, keys=arg.split() or None)
                self.obs.tag("agents")
                return cmd + " " + arg
            if cmd in ("aa", "soil_agent"):
                self.pending = partial(self.current, prefixes=arg.split(), agent=agent)
                self.obs.tag("current agent" if agent else "no agent")
                return cmd + " " + arg
            if cmd == "bad":
                if arg.startswith("cs"):
                    return self.go(arg)
                self.obs.tag("bad command")
                return arg
            if cmd in ("bstep", "break_step"):
                if self.step_bp is not None:
                    continue
                # while the schedule is running, its current step is not counted yet; nor is the one that the model is beginning
                inside, g = int(this is self.model and f.f_code.co_name == "step"), f
                while g is not None and not inside:
                    inside, g = int(g.f_locals.get("self") is self.model.schedule), g.f_back
                self.step_bp = self.model.schedule.steps + inside
                return self.go(cmd)
            if cmd in ("bss", "break_state_self"):
                if not isinstance(agent, Talk):
                    return cmd + " " + arg
                ids, klass = [agent.unique_id], type(agent).__name__
                if (klass, arg) not in WHERE:
                    return cmd + " " + arg
            if klass and klass not in self.known():
                continue
            where = self.targets(klass, arg)
            temporary = cmd in ("cs", "continue_state")
            if any(w in self.bps and self.bps[w] != (temporary, ids) for w in where):
                continue
            for w in where:
                self.bps.setdefault(w, (temporary, ids))
            if cmd in ("bss", "break_state_self"):
                self.obs.tag("own state")
                return "%s %s" % (cmd, arg)
            text = " ".join([cmd, "%s:%s" % (klass, arg) if klass else arg] + [str(i) for i in ids])
            return self.go(text) if temporary else text

    # -- listings
    def fresh(self):
        t = self.out.getvalue()
        self.out.seek(0)
        self.out.truncate()
        return t

    def blocks(self, text):
        """(class name, id, lines about it) for every agent in the text."""
        out = []
        for line in text.splitlines():
            mt = re.match(r"^(?:\[soil-pdb\] )?\W*(Talk|Loud|Lazy|Plain)\((\d+)\)(.*)$", line)
            if mt:
                out.append((mt.group(1), int(mt.group(2)), [mt.group(3)]))
            elif out:
                out[-1][2].append(line)
        return out

    def listed(self, text):
        got = self.blocks(text)
        want = [(type(a).__name__, a.unique_id) for a in self.model.schedule.agents]
        same(sorted(b[:2] for b in got), sorted(want), "agents listed by the debugger")
        by = {a.unique_id: a for a in self.model.schedule.agents}
        for k, uid, lines in got:
            a = by[uid]
            if isinstance(a, Talk):
                require(re.search(r"state_id\W+%s\b" % a.state_id, "\n".join(lines)), "agent {} is in state {!r}; it is shown as {!r}", uid, a.state_id, lines)

    def attrs(self, lines):
        out = {}
        for l in lines:
            mt = re.match(r"^\s*- (\w+): (.*)$", l)
            if mt:
                out[mt.group(1)] = mt.group(2)
        return out

    def shown(self, text, keys):
        got = self.blocks(text)
        same(sorted(b[:2] for b in got), sorted((type(a).__name__, a.unique_id) for a in self.model.schedule.agents), "agents shown by the debugger")
        by = {a.unique_id: a for a in self.model.schedule.agents}
        for k, uid, lines in got:
            seen, a = self.attrs(lines), by[uid]
            if keys is not None:
                same(sorted(seen), sorted(set(keys)), "attributes shown of agent %d" % uid)
            for key in (keys or ["mood", "mask", "money", "unique_id", "alive"]):
                if key in a.__dict__:
                    same(seen.get(key), str(getattr(a, key)), "attribute %s of agent %d, as shown" % (key, uid))

    def current(self, text, prefixes, agent):
        got = self.blocks(text)
        if agent is None:
            same(got, [], "agents shown while not stopped in an agent")
            return
        same([b[:2] for b in got], [(type(agent).__name__, agent.unique_id)], "the current agent")
        seen = self.attrs(got[0][2])
        for key in ("mood", "mask", "money", "unique_id", "k"):
            if key not in agent.__dict__:
                continue
            if not prefixes or any(key.startswith(p) for p in prefixes):
                same(seen.get(key), str(getattr(agent, key)), "attribute %s of the current agent, as shown" % key)
            else:
                require(key not in seen, "{} was not asked for", key)


def final(m):
    return [(type(a).__name__, a.unique_id, a.mood, a.money, a.mask, a.alive, getattr(a, "state_id", None), float(m.now)) for a in m.schedule.agents]


def simulate(case, debugging, out=None):
    sim = S.Simulation(model={"World": World, "World2": World2}[case["world"]], max_steps=case["n"], seed="d%d" % case["seed"], exporters=[], dump=False,
                       parameters=dict(people=case["people"], entry=case["entry"], model_reporters={"r": report}, debugging=debugging), debug=debugging and case["entry"] == "debug")
    if not debugging or case["entry"] != "main":
        return sim.run()[0]
    argv, level, env = sys.argv, soil.logger.level, {k: os.environ.get(k) for k in ("SOIL_POSTMORTEM", "SOIL_DEBUG")}
    sys.argv = ["soil", "--output", out, "--no-dump"] + (["--debug"] if case["seed"] % 2 else [])
    try:
        return soil.main(sim, debug=not case["seed"] % 2)[0][0]
    finally:
        sys.argv = argv
        soil.logger.setLevel(level)
        for k, v in env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


def undisturbed(check):
    """The callbacks of a garbage collection would be stepped into, as any other function."""
    @functools.wraps(check)
    def wrapper(case, obs):
        gc.collect(0)
        on = gc.isenabled()
        gc.disable()
        try:
            return check(case, obs)
        finally:
            if on:
                gc.enable()
    return wrapper


@undisturbed
def check(case, obs):
    with silent():
        ref = simulate(case, False)
    s = Session(case, list(ref.log), ref.schedule.steps, obs)
    D.debugger = D.Debug(stdin=s, stdout=s, nosigint=True, readrc=False)
    old = sys.gettrace()
    crash = None
    try:
        with contextlib.redirect_stdout(s), contextlib.redirect_stderr(io.StringIO()):
            got = simulate(case, True, obs.scratch)
    except Exception as ex:
        crash = ex
    finally:
        sys.settrace(old)
        D.debugger.clear_all_breaks()
        D.debugger = None
    if s.error:
        raise s.error
    if crash is not None:
        raise Violation("the session ended with %s: %s" % (type(crash).__name__, crash))
    same(s.expected[0] in ("end", "entry", "over"), True, "the run went past %r" % (s.expected,))
    same(got.log, ref.log, "activations while debugging")
    same(final(got), final(ref), "agents after debugging")
    same(got.schedule.steps, ref.schedule.steps, "steps while debugging")
    obs.tag(case["entry"])
    if s.stops > 3:
        obs.tag("many stops")


class Boom(Exception):
    pass


class Frail(Talk):
    def follow(self, nxt, wait):
        if len(self.model.log) == self.model.fatal:
            raise Boom("agent %d" % self.unique_id)
        return super().follow(nxt, wait)


class Doomed(World):
    def init(self):
        self.log = []
        for kind, script in self.people:
            self.add_agent(Frail if kind != "Plain" else Plain, **({"script": script} if kind != "Plain" else {}))


class Autopsy(Session):
    """The only stop is the place of the failure."""
    def arrive(self):
        f = D.debugger.curframe
        this = f.f_locals.get("self")
        require(f.f_code.co_name == "follow" and isinstance(this, Frail), "post-mortem debugging of {} of {!r}, instead of the place of the failure", f.f_code.co_name, this)
        self.model = this.model
        same(len(self.model.log), self.model.fatal, "activations before the failure")
        same(self.model.log[-1][2], this.unique_id, "agent that failed")
        self.stops += 1
        self.obs.hit()

    def go(self, text):
        return "q"

    def blocks(self, text):
        return super().blocks(text.replace("Frail(", "Talk("))

    def known(self):
        return set()


def autopsy_cases():
    move = st.tuples(weighted(("a", 3), ("b", 3), ("c", 3)), st.sampled_from([None, None, 1, 2, 0.5])).map(list)
    people = st.lists(st.tuples(st.sampled_from(["Talk", "Talk", "Plain"]), st.lists(move, min_size=1, max_size=4)).map(list), min_size=1, max_size=4)
    cmd = st.sampled_from([["sl", None, "", []], ["sa", None, "mood", []], ["sa", None, "", []], ["aa", None, "", []], ["aa", None, "m", []]])
    return fixed(people=people, fatal=st.integers(1, 8), cmds=st.lists(cmd, max_size=4), how=st.sampled_from(["option", "argument"]), n=st.integers(1, 6), seed=st.integers(0, 10 ** 6))


@undisturbed
def check_autopsy(case, obs):
    Frail.__name__ = "Talk"
    s = Autopsy(case, [], 0, obs)
    D.debugger = D.Debug(stdin=s, stdout=s, nosigint=True, readrc=False)
    old, argv, env = sys.gettrace(), sys.argv, os.environ.get("SOIL_POSTMORTEM")
    sim = S.Simulation(model=Doomed, max_steps=case["n"], seed="d%d" % case["seed"], parameters=dict(people=case["people"], entry="", fatal=case["fatal"]))
    sys.argv = ["soil", "--output", os.path.join(obs.scratch, "out"), "--no-dump"] + (["--pdb"] if case["how"] == "option" else [])
    level = soil.logger.level
    res = None
    try:
        with contextlib.redirect_stdout(s), contextlib.redirect_stderr(io.StringIO()):
            res = soil.main(sim, pdb=case["how"] == "argument")
    except Boom:
        pass
    finally:
        sys.settrace(old)
        sys.argv = argv
        os.environ.pop("SOIL_POSTMORTEM", None)
        if env is not None:
            os.environ["SOIL_POSTMORTEM"] = env
        soil.logger.setLevel(level)
        D.debugger.clear_all_breaks()
        D.debugger = None
    if s.error:
        raise s.error
    if s.stops:
        obs.tag("failed")
        return
    require(res and len(res) == 1, "the simulation failed, and there was nothing to debug: {!r}", res)
    require(len(res[0][0].log) < case["fatal"], "the simulation should have failed")


TARGETS = [
    Target("session", cases, check, quick=2400, rule="the run stopped at a requested state or step", cpu_limit=40),
    Target("autopsy", autopsy_cases, check_autopsy, quick=400, rule="a failure was debugged", cpu_limit=40),
]
