"""C10: waiting for messages and replies ends with the right result at the right time.

Every agent runs a generated script of sends, questions, waits and sleeps. Each agent has its own phase within
the unit interval and sleeps whole units, so no two activations coincide and the reference simulation below
(an independent event loop over the same scripts) is exact for every scheduler. In some cases all of them act at the same
instants, in the order given by the ordered scheduler."""
import heapq, itertools
from vf.lib import *
from vf.core import Target

TECHNIQUE = "differential against a reference event simulation of the same generated scripts (answers, deadlines, polling)"
ASSUMPTIONS = ["None is not an answer; waiting when only expired messages are queued is unspecified; activations coincide in time only with the ordered scheduler"]

pick = st.integers(0, 20)
values = st.sampled_from([0, 1, "", "yes", False, True, [], {}, 0.0, "no", None, 7])
sixteenth = st.one_of(st.integers(0, 6), st.integers(1, 160).map(lambda k: k / 16))
deadline = st.one_of(st.none(), st.tuples(st.just("timeout"), sixteenth).map(list), st.tuples(st.just("timeout"), sixteenth).map(list),
                     st.tuples(st.just("expiration"), sixteenth).map(list), st.tuples(st.just("instant"), st.sampled_from([0, 0, 1, -1, 3.5, 12])).map(list))
units = st.sampled_from([1, 1, 1, 2, 3, 5])


def payload():
    return fixed(v=values, react=weighted((None, 4), (0, 1), (1, 1), (2, 1)))


def cases():
    op = st.one_of(
        st.tuples(st.just("tell"), pick, payload()).map(list),
        st.tuples(st.just("bcast"), payload(), st.one_of(st.none(), st.sampled_from([0, 0.5, 1, 2, 4, 8]))).map(list),
        st.just(["process"]), st.tuples(st.just("sleep"), units).map(list),
        st.tuples(st.just("received"), deadline, st.one_of(st.none(), units), weighted((True, 3), (None, 3), (False, 1))).map(list),
        st.tuples(st.just("received"), deadline, st.one_of(st.none(), units), st.just(True)).map(list),
        st.tuples(st.just("ask"), pick, payload(), deadline, st.one_of(st.none(), units)).map(list),
        st.tuples(st.just("ask"), pick, payload(), deadline, st.one_of(st.none(), units)).map(list))
    # the same question again, while the first one was not yet answered
    again = st.tuples(pick, payload(), st.sampled_from([["timeout", 0.5], ["timeout", 1], ["timeout", 2.5]]), st.sampled_from([2, 3])).map(lambda t: [["ask", t[0], t[1], t[2], None]] * t[3])
    agent = fixed(enc=st.sampled_from(["async", "gen", "full"]), script=st.one_of(st.lists(op, min_size=1, max_size=7), st.lists(op, min_size=1, max_size=7), st.tuples(again, st.lists(op, max_size=3)).map(lambda t: t[0] + t[1])), loop=st.booleans())
    return fixed(agents=st.lists(agent, min_size=2, max_size=5), sched=sched_names, together=weighted((False, 3), (True, 1)), count=weighted((False, 3), (True, 1)), horizon=weighted((40, 5), (130, 1)))


class Timeout(Exception):
    pass


class Unspecified(Exception):
    pass


class Ref:
    """The reference: scripts as generators over a heap of unique instants."""

    def __init__(self, case):
        self.case = case
        self.horizon = case["horizon"]
        n = len(case["agents"])
        self.inbox = [[] for _ in range(n)]
        self.logs = [[] for _ in range(n)]
        self.now = 0
        self.heap = []
        self.blurred = None
        self.resolved = 0

    def run(self):
        n = len(self.case["agents"])
        seq = itertools.count()
        gens = [self.script(i) for i in range(n)]
        for i in range(n):
            heapq.heappush(self.heap, (phase(i, self.case), next(seq), i))
        while self.heap:
            t, _, i = heapq.heappop(self.heap)
            if t >= self.horizon:
                break
            self.now = t
            try:
                w = next(gens[i])
                heapq.heappush(self.heap, (t + w, next(seq), i))
            except StopIteration:
                pass
            except Unspecified:
                self.blurred = t
                break
        return self

    def process(self, i):
        got = []
        for _ in range(len(self.inbox[i])):
            m = self.inbox[i].pop(0)
            if m["exp"] is not None and m["exp"] < self.now:
                continue
            got.append(m)
            r = self.handle(i, m)
            if m["ask"]:
                m["reply"] = r
        return got

    def handle(self, i, m):
        self.logs[i].append(["handled", self.now, m["p"]["v"], m["sender"]])
        if m["p"]["react"] is not None:
            j = m["p"]["react"] % len(self.inbox)
            self.inbox[j].append(msg({"v": ["re", m["p"]["v"]], "react": None}, i))
        if self.case["count"]:
            return len(self.logs[i])
        return m["p"]["v"]

    def due(self, dl, default):
        if dl is None:
            return default
        if dl[0] == "instant":
            return dl[1]
        return self.now + dl[1]

    def script(self, i):
        sp = self.case["agents"][i]
        log = self.logs[i]
        while True:
            for op in sp["script"]:
                kind = op[0]
                if kind == "tell":
                    self.inbox[op[1] % len(self.inbox)].append(msg(op[2], i))
                elif kind == "bcast":
                    for j in range(len(self.inbox)):
                        if j != i:
                            self.inbox[j].append(msg(op[1], i, exp=None if op[2] is None else self.now + op[2]))
                elif kind == "process":
                    self.process(i)
                elif kind == "sleep":
                    yield op[1]
                elif kind == "received":
                    end, d = self.due(op[1], self.now + 60), op[2] or 1
                    res = None
                    while self.now < end:
                        if self.inbox[i]:
                            if all(m["exp"] is not None and m["exp"] < self.now for m in self.inbox[i]):
                                raise Unspecified()
                            if op[3] is not False:
                                res = [m["p"]["v"] for m in self.process(i)]
                            else:
                                if any(m["exp"] is not None and m["exp"] < self.now for m in self.inbox[i]):
                                    raise Unspecified()
                                res = [m["p"]["v"] for m in self.inbox[i]]
                            break
                        yield d
                    log.append(["received", self.now, "timeout" if res is None else res])
                    self.resolved += 1
                elif kind == "ask":
                    end, d = self.due(op[3], INF), op[4] or 1
                    q = msg(op[2], None, ask=True)
                    self.inbox[op[1] % len(self.inbox)].append(q)
                    res = "timeout"
                    while self.now < end:
                        if q["reply"] is not None:
                            res = ["reply", q["reply"]]
                            break
                        yield d
                    log.append(["asked", self.now, res])
                    self.resolved += 1
            log.append(["round", self.now])
            if not sp["loop"]:
                return
            yield 1


def msg(p, sender, exp=None, ask=False):
    return {"p": p, "sender": sender, "exp": exp, "ask": ask, "reply": None}


def phase(i, case):
    """Usually no two agents act at the same instant; otherwise, their order is that of the ordered scheduler."""
    if case["together"]:
        return 1
    return (i + 1) / 8


class Mix:
    def on_receive(self, m, sender=None):
        self.logs.append(["handled", self.now, m["v"], None if m["q"] else getattr(sender, "idx", None)])
        if m["react"] is not None:
            self.peers[m["react"] % len(self.peers)].tell({"v": ["re", m["v"]], "react": None, "q": False}, sender=self)
        if self.counting:
            return len(self.logs)
        return m["v"]

    def kw(self, dl, d, process=None):
        kw = {} if process is None else {"process": process}
        if dl is not None:
            kw["timeout" if dl[0] == "timeout" else "expiration"] = self.now + dl[1] if dl[0] == "expiration" else dl[1]
        if d is not None:
            kw["delay"] = d
        return kw

    def quick(self, op):
        if op[0] == "tell":
            self.peers[op[1] % len(self.peers)].tell(dict(op[2], q=False), sender=self)
        elif op[0] == "bcast":
            self.model.broadcast(dict(op[1], q=False), sender=self, ttl=op[2])
        elif op[0] == "process":
            self.process_messages()

    async def body(self):
        if not self.started:
            self.started = True
            await self.delay(phase(self.idx, self.case))
        for op in self.script:
            if op[0] == "sleep":
                await self.delay(op[1])
            elif op[0] == "received":
                try:
                    r = await self.received(**self.kw(op[1], op[2], op[3]))
                    r = [x.payload["v"] for x in r]
                except soil.events.TimedOut:
                    r = "timeout"
                self.logs.append(["received", self.now, r])
            elif op[0] == "ask":
                try:
                    r = ["reply", await self.peers[op[1] % len(self.peers)].ask(dict(op[2], q=True), **self.kw(op[3], op[4]))]
                except soil.events.TimedOut:
                    r = "timeout"
                self.logs.append(["asked", self.now, r])
            else:
                self.quick(op)
        self.logs.append(["round", self.now])
        return 1 if self.loop else INF

    def gbody(self):
        if not self.started:
            self.started = True
            yield phase(self.idx, self.case)
        for op in self.script:
            if op[0] == "sleep":
                yield op[1]
            elif op[0] == "received":
                try:
                    r = yield from self.received(**self.kw(op[1], op[2], op[3]))
                    r = [x.payload["v"] for x in r]
                except soil.events.TimedOut:
                    r = "timeout"
                self.logs.append(["received", self.now, r])
            elif op[0] == "ask":
                try:
                    r = ["reply", (yield from self.peers[op[1] % len(self.peers)].ask(dict(op[2], q=True), **self.kw(op[3], op[4])))]
                except soil.events.TimedOut:
                    r = "timeout"
                self.logs.append(["asked", self.now, r])
            else:
                self.quick(op)
        self.logs.append(["round", self.now])
        return 1 if self.loop else INF


class Async(Mix, A.EventedAgent):
    async def step(self):
        return await self.body()


class Gen(Mix, A.EventedAgent):
    def step(self):
        return (yield from self.gbody())


class Full(Mix, A.Agent):
    @A.default_state
    @A.state
    async def s(self):
        return await self.body()


CL = {"async": Async, "gen": Gen, "full": Full}




def check(case, obs):
    ref = Ref(case).run()
    env = E.Environment(schedule_class=SCHEDULERS()["ordered" if case["together"] else case["sched"]])
    peers = []
    for i, sp in enumerate(case["agents"]):
        a = env.add_agent(CL[sp["enc"]])
        a.script, a.loop, a.idx, a.logs, a.peers, a.started, a.counting, a.case = sp["script"], sp["loop"], i, [], peers, False, case["count"], case
        peers.append(a)
    guard = 0
    while env.running and guard < 20000:
        env.step()
        guard += 1
        if env.now >= case["horizon"]:
            break
    end = case["horizon"] if ref.blurred is None else ref.blurred
    for i, a in enumerate(peers):
        got = [[e[0], float(e[1])] + e[2:] for e in a.logs if e[1] < end]
        want = [[e[0], float(e[1])] + e[2:] for e in ref.logs[i] if e[1] < end]
        for g, w in zip(got + [None] * len(want), want + [None] * len(got)):
            if g is None and w is None:
                break
            if g is None or w is None or repr(g) != repr(w):
                raise Violation("agent %d: got %r, expected %r" % (i, g, w))
    for l in ref.logs:
        for e in l:
            if e[0] == "asked":
                obs.tag("timeout" if e[2] == "timeout" else "answered" if e[2][1] else "falsy_answer")
            elif e[0] == "received":
                obs.tag("received_timeout" if e[2] == "timeout" else "received")
    obs.tag("unspecified", int(ref.blurred is not None))
    obs.hit(bool(obs.tags.keys() & {"answered", "falsy_answer", "received"}) and sum(len(l) for l in ref.logs) > 4)


TARGETS = [Target("waiting", cases, check, quick=2500, rule="some answer or message is obtained by waiting, and at least five events are compared")]
