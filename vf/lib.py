"""Pieces shared by the property modules: time values, schedulers, silent runs."""
import contextlib, io, logging, math, os, sys, warnings
from functools import partial

warnings.simplefilter("ignore")

from hypothesis import strategies as st

import mesa
import soil
from soil import agents as A, environment as E, time as T, simulation as S
from vf.core import Violation, Runaway, require, same

logging.getLogger("soil").setLevel(logging.CRITICAL)
logging.getLogger("MESA").setLevel(logging.CRITICAL)

INF = float("inf")


def SCHEDULERS():
    return {
        "timed": T.TimedActivation,
        "shuffled": T.ShuffledTimedActivation,
        "ordered": T.OrderedTimedActivation,
        "pq": T.PQueueActivation,
        "pq_fixed": partial(T.PQueueActivation, shuffle=False),
    }


sched_names = st.sampled_from(["timed", "shuffled", "ordered", "pq", "pq_fixed"])

# Waits are binary fractions: every sum is exact, so the oracle needs no tolerance.
# Small pools make coincidences (several agents due at the same instant) likely.
pool_waits = st.sampled_from([1, 2, 3, 1.0, 0.5, 0.25, 1.5, 2.5, 4, 10, 100])
any_waits = st.one_of(
    pool_waits, pool_waits,
    st.integers(1, 40).map(lambda k: k / 8),
    st.sampled_from([2.0 ** -10, 2 ** 20, 1000000, 2 ** 30 + 0.5, 7.0009765625]),
)
opt_waits = st.one_of(st.none(), any_waits)
offsets = st.one_of(st.just(0), pool_waits, st.integers(0, 24).map(lambda k: k / 8))


def weighted(*pairs):
    """sampled_from with integer weights."""
    return st.sampled_from([v for v, w in pairs for _ in range(w)])


def fixed(**kw):
    return st.fixed_dictionaries(kw)


@contextlib.contextmanager
def silent():
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


def fnum(x):
    return None if x is None else float(x)
