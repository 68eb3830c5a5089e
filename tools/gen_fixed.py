"""Writes the `fixed:` lines of known_findings.txt from the fix: commits of /repo."""
import subprocess, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROP = [  # (regex on the subject, property)
 ("keys are names of methods", "C24"), ("nodes that name their agent", "C07"), ("messages of simulation instances", "C24"), ("hide errors raised while writing", "C36"),
 ("whatever its name", "C13"), ("debugger", "C35"), ("post-mortem debugging", "C35"), ("breakpoints", "C35"), ("break before the next step", "C35"), ("pdb argument", "C35"),
 ("default_interval", "C01"), ("requested time when adding", "C01"), ("corrupt the priority queue", "C01"),
 ("removed from the schedule are not activated", "C03"), ("does not compare the state", "C03"), ("no more activations pending", "C02"),
 ("every attribute criterion", "C06"), ("state passed by the caller", "C06"), ("by state_id works with plain mesa", "C28"),
 ("empty list of ids", "C06"), ("views of agents", "C06"), ("look for agents by id", "C06"),
 ("always use a free node", "C07"), ("do not reuse existing nodes", "C07"), ("add_edge", "C08"),
 ("received returns", "C10"), ("receive messages while", "C09"), ("valid reply to ask", "C10"), ("expiration time given", "C10"),
 ("while they are being initialized", "C09"), ("two-letter", "C05"), ("default state of FSM", "C05"),
 ("limited to a type of agent", "C14"), ("reported methods", "C14"), ("agent dataframe", "C14"),
 ("output folder in the SQLite", "C15"), ("without parameters can be read", "C15"), ("without agent reporters", "C15"),
 ("GEXF", "C16"), ("header of every CSV", "C16"), ("reporters of an iteration", "C12"), ("own copy of the parameters", "C12"),
 ("combine the matrix", "C13"), ("postponed simulations with a matrix", "C25"), ("relative to the current directory", "C18"),
 ("clean up when a file", "C25"), ("items in lists", "C18"), ("names of classes", "C19"), ("--output", "C24"), ("easy returns", "C24"),
 ("limits of a simulation in the command line", "C24"), ("backups made in the same second", "C26"),
 ("logging with keyword", "C27"), ("log reported values", "C27"),("exported as floats", "C15"), ("named like a built-in", "C19"), ("expanding a template", "C20"), ("an empty topology", "C21"), ("explicit seed", "C21"), ("states of classes with several base", "C05"), ("several base classes", "C22"), ("values of an agent", "C22"), ("summary exporter", "C17"), ("graphdrawing", "C17"), ("using a module once", "C19"), ("source file of a simulation take precedence", "C19"), ("SISa", "C30"), ("BassModel", "C30"), ("IndependentCascade", "C30"),
 ("part of the converted configuration", "C24"), ("separate YAML documents", "C24"), ("run_from_file", "C25"), ("ValueError in a Python file", "C25"), ("from_dict", "C27"), ("verbose models without", "C27"),
 ("data collectors without model", "C28"), ("constructor does not take", "C28"), ("results of plain mesa", "C28"), ("soil agents in plain mesa", "C28"), ("did not collect any agent data", "C28"), ("fixed-step wrapper", "C29"), ("plotting by steps", "C34"), ("skip attributes in the text", "C31"), ("never had agents", "C34"), ("reserved nodes", "C07"), ("each requested exporter once", "C24"), ("infinite values", "C19"),
]
EXTRA = {}
exec(open(os.path.join(H, "tools", "fix_map.py")).read()) if os.path.exists(os.path.join(H, "tools", "fix_map.py")) else None
out = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x09%s"], text=True)
lines = ["# Defects of gsi-upm/soil found by the checks. 'fixed:' entries suppress nothing.",
         "# Unrepaired findings (if any) are listed in known_findings.jsonl with the exact failing case."]
for l in out.splitlines():
    h, s = l.split("\t", 1)
    if not s.startswith("fix:"):
        continue
    for rx, p in PROP:
        if re.search(rx, s):
            lines.append("fixed: property=%s %s %s" % (p, h, s[4:].strip()))
            break
    else:
        raise SystemExit("no property for " + s)
open(os.path.join(H, "known_findings.txt"), "w").write("\n".join(lines) + "\n")
print(len(lines) - 2)
