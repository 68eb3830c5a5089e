"""Shared vocabulary of the checks: violations, observations, targets."""
import json


class Violation(Exception):
    """The property does not hold for the case being checked."""


class Runaway(Exception):
    """The code under test exceeded the activation budget of a case (it does not terminate)."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def same(got, want, what):
    """Exact comparison with a readable message."""
    if got != want or type(got) is bool and type(want) is not bool:
        raise Violation("%s: got %r, expected %r" % (what, got, want))


class Obs:
    """What one case exercised. `nontrivial` is decided by the target's rule."""
    __slots__ = ("tags", "nontrivial", "scratch")

    def __init__(self, scratch=None):
        self.tags = {}
        self.nontrivial = False
        self.scratch = scratch

    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n

    def hit(self, cond=True):
        if cond:
            self.nontrivial = True


class Target:
    """One executable check: a generator of JSON-able cases and an oracle."""

    def __init__(self, name, strategy, check, quick, thorough=None, rule="", shards=8, cpu_limit=20):
        self.name = name
        self.strategy = strategy      # () -> hypothesis strategy
        self.check = check            # (case, obs) -> None, raises Violation
        self.quick = quick            # generated cases, quick tier
        self.thorough = thorough or quick * 25
        self.rule = rule
        self.shards = shards
        self.cpu_limit = cpu_limit    # seconds of CPU per case before it counts as a hang


def canon(case):
    return json.dumps(case, sort_keys=True)


def norm(case):
    """What the oracle sees is always what a replay file would give it."""
    return json.loads(json.dumps(case))
