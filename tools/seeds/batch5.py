"""Planted bugs about runs that fail (C36)."""
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


COMMON = '''
import sqlite3, glob

class Ag(A.BaseAgent):
    def step(self):
        if FAULT and int(self.model.id) == FAULT[1] and self.now >= 2:
            raise FAULT[0]("injected")
        return 1

class M(E.BaseEnvironment):
    def init(self):
        self.add_agent(Ag)

FAULT = None

def go(fault):
    nonlocal FAULT
    FAULT = fault
    sim = soil.Simulation(name="x", model=M, iterations=3, max_time=4, seed="s", outdir=_tmp, exporters=["csv"], backup=False, dump=True)
    try:
        sim.run()
    except BaseException as ex:
        return ex
'''

bug("iterations-exported-one-late", "C36", [("soil/simulation.py", '''            for env in self._run_iters_for_params(params):
                for exporter in exporters:
                    exporter.iteration_end(env, params, params_id)
                results.append(env)
''', '''            previous = None
            for env in chain(self._run_iters_for_params(params), [None]):
                # Keep the model that has just finished until the next one is ready
                if previous is not None:
                    for exporter in exporters:
                        exporter.iteration_end(previous, params, params_id)
                    results.append(previous)
                previous = env
'''), ("soil/simulation.py", "from itertools import product\n", "from itertools import chain, product\n")],
    "a failure in an iteration other than the first",
    "the results of the last complete iteration before the failure are never exported",
    COMMON + '''
ex = go((ValueError, 1))
assert type(ex) is ValueError, ex
found = sorted(os.path.basename(f) for f in glob.glob(os.path.join(_tmp, "x", "*.env.csv")))
assert found == ["0.env.csv"], found
''')

bug("missing-key-forgiven", "C36", [("soil/time.py", '''                when = agent.step() or self.default_interval
                when += now
            except DeadAgent:
                continue

            if when != INFINITY''', '''                when = agent.step() or self.default_interval
                when += now
            except (DeadAgent, KeyError):  # Or it is no longer in the schedule
                continue

            if when != INFINITY''')],
    "an agent whose step raises KeyError",
    "the error is lost: the agent silently leaves the schedule and the run ends normally",
    COMMON + '''
ex = go((KeyError, 0))
assert type(ex) is KeyError, ex
ex = go((ValueError, 0))
assert type(ex) is ValueError, ex
''')

bug("interrupted-iteration-exported", "C36", [("soil/simulation.py", '''                model.step()

        return model
''', '''                try:
                    model.step()
                except KeyboardInterrupt:
                    self.logger.warning("Interrupted: finishing the simulation")
                    break

        return model
''')],
    "an interruption in the middle of an iteration",
    "an iteration that was interrupted is exported as if it were complete, the next ones go on, and the caller never learns",
    COMMON + '''
ex = go((KeyboardInterrupt, 1))
assert type(ex) is KeyboardInterrupt, ex
found = sorted(os.path.basename(f) for f in glob.glob(os.path.join(_tmp, "x", "*.env.csv")))
assert found == ["0.env.csv"], found
''')
