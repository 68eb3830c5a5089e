BUGS = []
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

SESSION = '''
import io
from soil import debugging as D

class Prompts:
    def __init__(self, commands):
        self.commands, self.stops, self.text = list(commands), [], ""
    def readline(self):
        f = D.debugger.curframe
        this = f.f_locals.get("self")
        self.stops.append((f.f_code.co_name, getattr(this, "unique_id", None), getattr(this, "now", None)))
        return (self.commands.pop(0) if self.commands else "c") + "\\n"
    def write(self, text):
        self.text += text
    def flush(self):
        pass

def session(model, *commands):
    p = Prompts(commands)
    D.debugger = D.Debug(stdin=p, stdout=p, nosigint=True, readrc=False)
    old = sys.stdout
    sys.stdout = p
    try:
        S.Simulation(model=model, max_steps=4, exporters=[], dump=False, debug=True).run()
    finally:
        sys.stdout = old
        sys.settrace(None)
        D.debugger.clear_all_breaks()
    return p
'''

bug("debugger-breaks-for-one-id", "C35", [("soil/debugging.py", 'cond = f"self.unique_id in { repr(instances) }"', 'cond = f"self.unique_id == { instances[0] }"')],
    "a breakpoint at a state for several agents",
    "only the first agent given stops at the state",
    SESSION + """
class Ag(A.FSM):
    @A.default_state
    @A.state
    def one(self):
        return self.delay(1)

class M(E.BaseEnvironment):
    def init(self):
        for i in range(3):
            self.add_agent(Ag)

p = session(M, "bs one 0 2", "c")
who = {s[1] for s in p.stops if s[0] == "one"}
assert who == {0, 2}, (who, p.stops)
""")

bug("debugger-inherited-state-ends-search", "C35", [("soil/debugging.py", '''                self.message("Breakpoint already exists at %s:%d" % (filename, line))
                continue
''', '''                self.message("Breakpoint already exists at %s:%d" % (filename, line))
                break
''')],
    "a breakpoint at a state that several classes share, when a later class redefines the state",
    "agents whose class redefines the state do not stop at it",
    SESSION + """
class Base(A.FSM):
    @A.default_state
    @A.state
    def one(self):
        return self.delay(1)

class Same(Base):
    pass

class Other(Base):
    @A.state
    def one(self):
        return self.delay(1)

class M(E.BaseEnvironment):
    def init(self):
        for k in (Base, Same, Other):
            self.add_agent(k)

p = session(M, "bs one", "c")
who = {s[1] for s in p.stops if s[0] == "one"}
assert who == {0, 1, 2}, (who, p.stops)
""")

bug("debugger-first-matching-attribute", "C35", [("soil/debugging.py", '''                    if key.startswith(k):
                        keys.append(key)
''', '''                    if key.startswith(k):
                        keys = keys or [key]
''')],
    "asking for the attributes of the current agent by a prefix that several of them share",
    "only one of the attributes is shown",
    SESSION + """
class Ag(A.FSM):
    def init(self):
        self.mood = 1
        self.money = 2
    @A.default_state
    @A.state
    def one(self):
        return self.delay(1)

class M(E.BaseEnvironment):
    def init(self):
        self.add_agent(Ag)

p = session(M, "cs one", "aa mo")
assert "mood: 1" in p.text and "money: 2" in p.text, p.text
""")
