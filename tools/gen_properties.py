"""Writes /verif/properties.jsonl. Edit the table here, not the jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": s} if isinstance(s, str) else s for s in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Agents are activated at exactly the instants they asked for",
  "Every agent in the schedule is first activated at the simulated time requested when it was added (the current time if none was requested), and after each activation it is activated again exactly after the wait it returned, or after the model's default interval if it returned none: never early, late, twice or not at all. This holds whatever other agents do, including agents added before or during the run, for every event-based scheduler, with simulated time never going backwards and standing at the instant being processed during every activation. With the ordered scheduler, agents due at the same instant run in the order in which they were scheduled for it.",
  ["schedules", "histories"], "All populations of agents with arbitrary positive waits (integers, binary fractions, huge, tiny, infinite), arbitrary start times, arbitrary spawning during activations, and every bundled event scheduler.",
  "A test samples one interleaving of two or three agents; losing, duplicating or displacing an activation depends on particular coincidences of wake-up times, insertions and population changes.",
  ["soil/time.py", "soil/environment.py"],
  [("bucket queue scheduler", "soil/time.py:TimedActivation.step/_schedule/add"), ("priority queue scheduler", "soil/time.py:PQueueActivation"), ("ordered / shuffled variants", "soil/time.py:OrderedTimedActivation"), ("default interval", "soil/time.py:DiscreteActivation")],
  ["pending activations", "simulated clock"], ["agent step calls", "model.now"])

p("C02", "Runs stop exactly at their limits, or when nothing is left to do",
  "A simulation with a maximum time performs every activation due strictly before that time and none at or after it; with a maximum number of steps it performs exactly that many steps unless another limit comes first. A simulation in which no agent will ever be activated again stops by itself after performing every pending activation, and a model that declares itself finished is not stepped again.",
  ["schedules", "configurations"], "All activation schedules and all combinations of limits (none, time, steps, both), limits falling exactly on, just before or just after an event, and models that end by themselves.",
  "Off-by-one limits and missed termination depend on how limits line up with the wake-up times and on the history by which the queue drains.",
  ["soil/simulation.py", "soil/time.py"],
  [("termination condition", "soil/simulation.py:Simulation._run_model"), ("queue exhaustion", "soil/time.py:TimedActivation.step, PQueueActivation.step")],
  None, ["agent step calls", "model.schedule.steps", "model.now"])

p("C03", "A dead or removed agent never acts again, and nobody else notices",
  "Once an agent dies or is removed from the schedule (by itself or by any other agent, at any moment including the instant at which it was due) it is never activated again, stops being counted and found, and its node leaves the network unless it asked to stay. The activation times of every other agent are the same as if it were still there.",
  ["histories", "schedules"], "All histories of deaths: by returning the death, by dying and carrying on, by a killer running earlier or later in the same instant, in the middle of a generator, for plain, networked, state-machine and plain mesa agents.",
  "The victim's pending activation may sit in any position of the queue, in the instant being processed or in a future one; tests only kill an agent that returns its own death.",
  ["soil/time.py", "soil/agents/__init__.py", "soil/agents/fsm.py", "soil/agents/network_agents.py"],
  [("die", "soil/agents/__init__.py:BaseAgent.die"), ("node removal", "soil/agents/network_agents.py:NetworkAgent.die"), ("skipping dead agents", "soil/time.py:step")],
  ["set of living agents", "pending activations"], ["agent step calls", "agent searches", "agent counts"])

p("C04", "All ways of writing a behaviour yield the same trajectory",
  "The same behaviour written as a plain step function, as a generator, as an asynchronous function, as a state of a state machine (plain, generator or asynchronous), or through a class derived from any of these, produces exactly the same activation times, observations and final state. A generator or asynchronous behaviour is resumed where it paused, after exactly the wait it yielded, and starts again from the top at the next activation once it finishes.",
  ["programs", "schedules"], "All behaviours built from sequences of actions and waits (numbers, none, delay objects, absolute instants, nested helper generators or awaits, early returns, per-agent data), in populations mixing the encodings.",
  "Tests check one hand-written agent of each kind; sharing of suspended state, misplaced resumption or lost return values only show on particular sequences.",
  ["soil/agents/__init__.py", "soil/agents/fsm.py", "soil/time.py"],
  [("generator stepping", "soil/agents/__init__.py:decorate_generator_step"), ("plain stepping", "soil/agents/__init__.py:decorate_normal_func"), ("delays", "soil/time.py:Delay"), ("states as coroutines", "soil/agents/fsm.py:State.step")],
  None, ["agent step bodies", "model.now"])

p("C05", "State machines follow their declared transitions",
  "A state-machine agent starts in the state it was given, or else in its class's (possibly inherited) default state; at each activation exactly the function of its current state runs. What that function returns decides the next state and wait: a state (object or name, however written) changes the state and waits the default, a state with a delay or absolute time also sets the wait, a plain time or nothing keeps the state; derived classes inherit, override and extend states and default. Naming a state that does not exist, or setting the state by hand once time has passed, is reported as an error and leaves the state as it was.",
  ["programs", "histories"], "All state graphs with arbitrary names, default declarations, inheritance chains with overridden, added and re-defaulted states, and all return forms.",
  "The number of combinations of return forms, names, inheritance and defaults is unbounded; tests use two-state toggles.",
  ["soil/agents/fsm.py"],
  [("state collection and default", "soil/agents/fsm.py:MetaFSM"), ("transition", "soil/agents/fsm.py:FSM.step/_set_state"), ("delayed transitions", "soil/agents/fsm.py:BoundState")],
  ["current state of each agent"], ["state functions", "agent.state_id"])

p("C06", "Agent searches return exactly the agents matching every criterion",
  "Searching for agents from a model or from an agent returns exactly the scheduled agents that satisfy all the given criteria together (ids, classes given as a type, a list of types or a name, state ids, attribute values with lists meaning any of them), each once, and no more than the limit. Counting, picking one, iterating, membership and lookup by id agree with that search, and searching changes neither the agents nor the arguments.",
  ["inputs", "histories"], "All populations of agents of mixed classes (including plain mesa agents), attribute values, and all combinations of criteria.",
  "The criteria combine freely; tests use one criterion at a time, and a filter dropping one of several criteria passes them.",
  ["soil/agents/__init__.py", "soil/environment.py", "soil/agents/network_agents.py"],
  [("filter", "soil/agents/__init__.py:filter_agents"), ("view", "soil/agents/__init__.py:AgentView"), ("model search", "soil/environment.py:BaseEnvironment.get_agents/agent/count_agents"), ("agent search", "soil/agents/network_agents.py:NetworkAgent.iter_agents")])

p("C07", "Network agents and nodes stay in one-to-one correspondence",
  "At every point of a simulation each living network agent sits on exactly one existing node that points back to it, and no node holds two agents. An agent added without a node takes a free node if there is any and otherwise a brand new one, a requested free node is honoured, nodes of the initial network that name their agent hold it (the network is refused if that is impossible), adding a node that is taken is an error that changes nothing, populating the network fills every free node and leaves occupied ones alone, and removing an agent with its node leaves the rest untouched.",
  ["histories", "inputs"], "All sequences of populating, adding agents with and without nodes, adding nodes, removing agents and edges, over graphs with arbitrary node names (integers, strings, gaps, names that look like sizes).",
  "Collisions depend on node names and on the order of additions and deaths; tests populate a small integer-labelled graph once.",
  ["soil/environment.py", "soil/agents/network_agents.py", "soil/network.py"],
  [("free node choice", "soil/agents/network_agents.py:NetworkAgent.__init__"), ("population", "soil/environment.py:NetworkEnvironment.populate_network"), ("add_node", "soil/environment.py:NetworkEnvironment.add_node, soil/network.py:find_unassigned"), ("removal", "soil/agents/network_agents.py:NetworkAgent.remove_node/die")],
  ["graph", "node to agent map", "agent to node map"], ["agent.node_id", "model.G", "model.agent_for_node_id", "model.network_agents"])

p("C08", "Neighbourhood, subgraph and geographic queries match the network",
  "An agent's neighbours are exactly the scheduled agents on nodes adjacent to its own that satisfy the given criteria (successors in a directed network), and counting them agrees. A subgraph query contains exactly the nodes of the matching agents (plus the centre when asked) with all links between them, a geographic search returns exactly the nodes of matching agents whose position is within the radius (inclusive), and links added by an agent appear with the given attributes (linking an agent that left the network is an error that changes nothing).",
  ["inputs", "histories"], "All directed and undirected graphs (self-loops, isolated nodes, free nodes, arbitrary names), positions, radii, criteria, and histories of deaths and edge additions.",
  "Adjacency, criteria and past deaths combine; tests use a path of three nodes.",
  ["soil/agents/network_agents.py", "soil/agents/geo.py"],
  [("neighbours", "soil/agents/network_agents.py:NetworkAgent.iter_agents/iter_neighbors"), ("subgraph", "soil/agents/network_agents.py:NetworkAgent.subgraph"), ("add_edge", "soil/agents/network_agents.py:NetworkAgent.add_edge"), ("geo_search", "soil/agents/geo.py:Geo.geo_search")])

p("C09", "Messages are delivered exactly once, in order, unless they expire",
  "Every message told or broadcast to an agent that can receive is handed to its reception handler exactly once, with its payload and sender, in the order sent, when the recipient next processes its messages, unless it expired before then (it is still delivered at the very instant of its expiration). A broadcast reaches every matching agent except its sender, agents that cannot receive are skipped without harm, and messages sent while messages are being processed are neither lost nor repeated.",
  ["histories", "schedules"], "All interleavings of tells and broadcasts (with criteria, expirations, time-to-live) with processing at arbitrary times, including handlers that send messages, to themselves too.",
  "Loss, duplication and misordering depend on the interleaving of senders and receivers and on sending from handlers.",
  ["soil/agents/evented.py", "soil/environment.py", "soil/events.py"],
  [("inbox processing", "soil/agents/evented.py:EventedAgent.process_messages/tell"), ("broadcast", "soil/environment.py:EventedEnvironment.broadcast"), ("expiry", "soil/events.py:Message.expired")],
  ["inboxes"], ["reception handler"])

p("C10", "Waiting for messages and replies ends with the right result at the right time",
  "An agent that waits for messages gets the list of messages that arrived (in order, without expired ones), or a timeout when none arrived before its deadline; an agent that asks another gets exactly the value its handler returned for that question, whatever the value, or a timeout at the deadline (a handler returning nothing has not answered). Waiting agents check at the polling interval they chose, and concurrent questions never receive each other's answers.",
  ["schedules", "histories"], "All interleavings of askers, answerers, tellers and waiters with arbitrary phases, polling intervals, timeouts and absolute deadlines, and reply values (falsy ones included).",
  "Whether a reply arrives before a deadline depends on the interleaving; tests use a two-agent ping-pong with truthy replies.",
  ["soil/agents/evented.py"],
  [("received", "soil/agents/evented.py:EventedAgent.received"), ("ask", "soil/agents/evented.py:EventedAgent.ask")],
  ["inboxes", "pending questions"], ["values returned to the waiting agent", "model.now"])

p("C11", "Simulations are reproducible from their seed",
  "Running the same simulation with the same seed gives the same trajectory, the same random choices and the same collected data, in the same process or in another one, whatever ran before, whatever the hash seed, and whatever the number of iterations requested: iteration i is always the same run. Different iterations and different seeds use different random streams, so their random choices differ.",
  ["inputs", "histories", "configurations"], "All models drawing randomness through the agents, the model, network generators and population methods; all seeds, iteration counts and preceding activity.",
  "Tests run a simulation once; dependence on global state, hash order or wall time shows only when two separately prepared runs are compared.",
  ["soil/environment.py", "soil/simulation.py", "soil/time.py", "soil/network.py"],
  [("seeding", "soil/environment.py:BaseEnvironment.__new__"), ("iteration seeds", "soil/simulation.py:Simulation._get_env"), ("shuffling", "soil/time.py:TimedActivation.step"), ("network generation", "soil/environment.py:NetworkEnvironment.create_network")],
  ["random generator state"], ["trajectories", "data frames"])

p("C12", "Iterations and configurations never contaminate each other",
  "Each iteration of a simulation starts from its own fresh copy of the configured parameters, topology, reporters and agent defaults, so its results are the same as if it had been run alone. Running a simulation leaves its definition and the objects passed to it (parameters, matrix, topology, reporters) as they were, so running it again behaves the same; models created directly also leave the tables and reporters given to them as they were.",
  ["inputs", "histories"], "All parameter sets with mutable values (lists, nested dictionaries, graphs), reporters given globally or as parameters, models that modify what they were given, and any number of iterations and re-runs.",
  "Sharing only shows when a later iteration observes what an earlier one modified; tests use immutable parameters.",
  ["soil/simulation.py", "soil/environment.py", "soil/datacollection.py", "soil/agents/__init__.py"],
  [("environment creation", "soil/simulation.py:Simulation._get_env"), ("reporters", "soil/datacollection.py:SoilCollector"), ("topology", "soil/network.py:from_topology"), ("defaults", "soil/agents/__init__.py:BaseAgent.__init__")])

p("C13", "Every parameter combination is run the requested number of times",
  "A simulation runs each combination of its matrix, completed with its fixed parameters (a matrix value taking precedence), exactly once per iteration, passing exactly those values to the model, in a deterministic order, and returns all resulting models. Exporters see one start, one notification per finished model with the parameters it was run with, and one end; notifications of runs with equal parameters carry the same parameter identifier and runs with different parameters a different one.",
  ["configurations"], "All parameter dictionaries and matrices (up to several dimensions, empty and repeated values, overlapping keys), iteration counts, overrides given at run time and sets of exporters.",
  "The expansion is combinatorial; tests check one or two shapes.",
  ["soil/simulation.py"],
  [("expansion", "soil/simulation.py:Simulation._collect_params"), ("run loop", "soil/simulation.py:Simulation.run"), ("iterations", "soil/simulation.py:Simulation._run_iters_for_params, soil/utils.py:run_parallel")])

p("C14", "Collected data equals what really happened",
  "The model and agent data frames of a run contain one row per recorded step (the initial state included), and, for agents, one per agent in the schedule at that step, whose values equal the values the reporters had at that moment and whose time equals the simulated time at that moment. This holds for every way of declaring a reporter, reporters restricted to an agent class report nothing for others, and the time-indexed and step-indexed views contain the same values.",
  ["histories", "inputs"], "All populations that change over time, all reporter kinds (attribute names, functions, decorated methods and properties, restricted to classes), and irregular time advances.",
  "Misalignment appears only when populations and times vary together; tests look at one final value.",
  ["soil/datacollection.py", "soil/environment.py", "soil/decorators.py"],
  [("collection", "soil/environment.py:BaseEnvironment.step/__init__"), ("frames", "soil/environment.py:BaseEnvironment.agent_df/model_df"), ("reporters", "soil/environment.py:BaseEnvironment.add_model_reporter/add_agent_reporter"), ("report decorator", "soil/decorators.py:report")])

p("C15", "The exported database contains exactly the results of all runs",
  "After any sequence of simulations exported to the same database, reading it back gives, for every simulation, parameter set and iteration, exactly the rows and values its models collected, its parameters and its configuration, with nothing missing, repeated or mixed up between runs. Running again appends without touching earlier results, unless overwriting was requested, which leaves only the new results.",
  ["histories", "configurations"], "All sequences of simulations (each run its own simulation object, with the same columns and types for the same database) with arbitrary reporters (numbers, text with quotes and line breaks, missing values), tables, parameters, matrices without repeated combinations, and iteration counts, with and without agent data, overwrite and backup.",
  "Accumulation over several runs with different shapes is a history property; tests look at a single run.",
  ["soil/exporters.py", "soil/analysis.py"],
  [("SQLite exporter", "soil/exporters.py:SQLite"), ("data frames", "soil/exporters.py:get_dc_dfs"), ("reader", "soil/analysis.py:read_sql")],
  ["database file"], ["read_sql results"])

p("C16", "Exported CSV and GEXF files reproduce the results",
  "The CSV files written for a run parse back to exactly the rows and values that its models collected, labelled with their iteration, parameter set and simulation, with no row lost, repeated or mixed with a header. The GEXF file written for each iteration of a configuration can be read back and has exactly the nodes, links and plain attributes of the model's final network, and exporting does not change the model.",
  ["inputs", "configurations"], "All models with agents on their networks (directed or not, with positions and attributes), reporters with awkward text, several iterations and configurations.",
  "Quoting, repeated headers and unserialisable attributes depend on the data; tests export one trivial model.",
  ["soil/exporters.py", "soil/network.py"],
  [("CSV exporter", "soil/exporters.py:csv"), ("GEXF exporter", "soil/exporters.py:gexf, soil/network.py:dump_gexf")])

p("C17", "Without dumping, nothing is written and results do not change",
  "When a simulation does not dump its results, or is a dry run, no exporter creates, changes or deletes any file, and a dry run does not run any model. Apart from that, results are identical whichever exporters are configured and whether or not they dump.",
  ["configurations"], "All subsets of the bundled exporters, with dump, dry-run, backup and overwrite options in any combination, over directories with and without earlier results.",
  "Every combination of exporter and option must be silent; tests check one exporter.",
  ["soil/exporters.py", "soil/simulation.py", "soil/utils.py"],
  [("dry runner", "soil/exporters.py:DryRunner, Exporter.output"), ("dump flag", "soil/simulation.py:Simulation.run"), ("exporters", "soil/exporters.py:SQLite, YAML, csv, gexf, dummy")],
  ["file system"])

p("C18", "A simulation survives being written to a configuration and loaded back",
  "Saving a simulation as a dictionary or YAML (classes being written as names that resolve to the same class) and loading it back yields a simulation with the same model, parameters, matrix, limits, seed, name and options, that produces the same results; saving does not alter the simulation. Loading a configuration from a dictionary or file sets exactly the given fields, lets explicit arguments take precedence, and resolves relative paths against the configuration's own directory.",
  ["inputs", "configurations"], "All simulations with plain nested parameters (numbers, text, booleans, none, nested lists and dictionaries), classes as parameters, and several documents or files.",
  "Loss of type or structure depends on the nesting and the values; tests compare two fixed files.",
  ["soil/simulation.py", "soil/serialization.py"],
  [("to_dict / to_yaml", "soil/simulation.py:Simulation.to_dict/to_yaml"), ("serialize_dict", "soil/serialization.py:serialize_dict"), ("loading", "soil/simulation.py:iter_from_config, soil/serialization.py:load_config")])

p("C19", "Values and class names survive serialization",
  "Serializing a plain value (number, text, boolean, none, list, tuple, dictionary, set) and deserializing the resulting text and type name gives back an equal value of the same type. Serializing a class gives a name that deserializes to that very class and to no other, also when another known module has a class with the same name, and classes from an extra source file are found while that file is in use and forgotten afterwards.",
  ["inputs"], "All nested plain values and all classes from soil, networkx, the standard library and user modules, names that clash with built-in or bundled ones.",
  "Round trips must hold for every value; tests try a handful.",
  ["soil/serialization.py"],
  [("serialize / deserialize", "soil/serialization.py:serialize/deserialize/name/deserializer"), ("source files", "soil/serialization.py:with_source")])

p("C20", "A template expands to exactly its sampled configurations",
  "Expanding a configuration template yields one configuration per combination of the listed values and the samples drawn within the given bounds, each equal to the template with the variables replaced by their values. Configurations without a template are passed through unchanged, and invalid templates (unnamed variables missing, several documents, named) are rejected.",
  ["inputs", "configurations"], "All templates (as text or structure), lists of values, bounds, sampling methods and sizes.",
  "The product of lists and samples is combinatorial; tests expand one template and count.",
  ["soil/serialization.py"],
  [("expansion", "soil/serialization.py:expand_template"), ("sampling", "soil/serialization.py:params_for_template")])

p("C21", "The model's network is exactly the one that was asked for",
  "A topology given as a graph, as node-link data, or as a file in a supported format (absolute, or relative to the simulation's directory) becomes the model's network with exactly those nodes, links and attributes; a generator given by name or function is called with exactly the given parameters. Without a topology the network is empty, and an unknown format or generator is an error.",
  ["inputs"], "All graphs (directed or not, multigraphs where the format allows, attributes), all supported formats, and network generators with arbitrary valid parameters, seeded or not.",
  "Round trips over all graphs and formats cannot be enumerated; tests load one file per format.",
  ["soil/network.py", "soil/environment.py"],
  [("from_topology", "soil/network.py:from_topology"), ("from_params", "soil/network.py:from_params"), ("create_network", "soil/environment.py:NetworkEnvironment.create_network")])

p("C22", "Agent attributes follow the declared precedence and stay private",
  "A new agent has every declared attribute with the value given at creation, else the model's value of that name, else the default of the most derived class declaring it; mutable defaults are never shared between agents or with the class. Its init runs exactly once, when all of them are set. Reading, writing, deleting, listing and testing attributes through the dictionary interface is equivalent to using attributes, and customised copies of a class change only the copy.",
  ["inputs", "programs"], "All class hierarchies declaring defaults (as class attributes or as a defaults dictionary), mutable or not, all combinations of model values and arguments, and sequences of modifications.",
  "Precedence and aliasing depend on the combination of sources; tests check single cases.",
  ["soil/agents/__init__.py"],
  [("defaults collection", "soil/agents/__init__.py:MetaAgent"), ("initialisation", "soil/agents/__init__.py:BaseAgent.__init__"), ("mapping", "soil/agents/__init__.py:BaseAgent.__getitem__ and friends"), ("customisation", "soil/agents/__init__.py:custom")])

p("C23", "Adding agents creates exactly the requested population",
  "Adding agents creates exactly the requested number (by default one per node), each a scheduled agent of one of the given classes, with a unique id, the requested attributes and an activation at the current time. Classes with zero weight never appear, the frequency of each class follows its weight, and a model always has exactly the agents added minus those removed.",
  ["inputs", "histories"], "All lists of classes, weights, sizes, attributes and sequences of additions, explicit ids and removals.",
  "Counts and id uniqueness must hold over arbitrary sequences, and weights are statistical; tests add once.",
  ["soil/environment.py"],
  [("add_agent", "soil/environment.py:BaseEnvironment.add_agent"), ("add_agents", "soil/environment.py:BaseEnvironment.add_agents, NetworkEnvironment.add_agents"), ("populate", "soil/environment.py:NetworkEnvironment.populate_network")])

p("C24", "Command-line options do what they say",
  "Running simulations from the command line runs exactly the simulations in the given file (or the given simulation), with the limits, seed, iterations and model parameters (--set) given there overriding those of the file; what is not given keeps the file's values. Results are written by the default exporter and those requested into the requested output folder, or not at all with --no-dump; a dry run or a conversion runs nothing, and converting prints each simulation as it would have been run. The finished models are returned.",
  ["configurations"], "All combinations of command-line options over generated simulation files (Python and YAML).",
  "Each option can be lost or mis-applied in combination with others; tests run a dry run of an example.",
  ["soil/__init__.py"],
  [("argument parsing and overrides", "soil/__init__.py:main")])

p("C25", "Loading simulations from a file never runs them and leaves no trace",
  "Loading a Python file yields every simulation it keeps as a global (by name) and every one it would have run (in order), or its models if there are none, without running any of them, and running what was loaded does what the file asked for. A file that fails makes loading fail with its own error. Afterwards, in both cases, the process is as before: simulations run normally, later loads are unaffected, and neither the loaded file nor its folder is left behind as a module or import path.",
  ["programs", "fault_sequences"], "All files defining simulations as globals, by running them, by calling the model's run, with matrices, with models only, with errors at any point, and any sequence of loads.",
  "Residue only shows in the next load or run, after a particular failure; tests load good files.",
  ["soil/simulation.py"],
  [("do_not_run and queue", "soil/simulation.py:do_not_run/_iter_queued"), ("loading", "soil/simulation.py:iter_from_py/iter_from_file")],
  ["queue of postponed runs", "sys.path", "sys.modules"])

p("C26", "Backups never lose data",
  "With backups enabled, whenever a result file is about to be replaced its previous contents are first kept as a separate file in a backup folder next to it, so that after any number of runs every earlier version is still present, byte for byte. Without backups, no backup is made; in either case missing output folders are created and only files inside the output folder are touched.",
  ["histories"], "All sequences of writes and runs over the same output folder, including several within the same second, with text and binary files, and existing or missing folders.",
  "Losing a version requires several replacements of the same file in quick succession; tests write once.",
  ["soil/utils.py", "soil/exporters.py"],
  [("try_backup", "soil/utils.py:try_backup"), ("safe_open", "soil/utils.py:safe_open/open_or_reuse"), ("database backup", "soil/exporters.py:SQLite.sim_start")],
  ["output folder contents"])

p("C27", "Logging and verbosity never change the results",
  "Running the same simulation at any logging level, with any messages and keyword details logged by agents or the model, gives exactly the same trajectory and collected data, and never fails. Messages at or above the chosen level are emitted and others are not.",
  ["configurations", "programs"], "All logging levels, messages and keyword arguments, reporters returning any value including none, and populations of all agent kinds.",
  "Formatting code only runs at the most verbose level, on values tests never report.",
  ["soil/agents/__init__.py", "soil/environment.py"],
  [("agent logging", "soil/agents/__init__.py:BaseAgent.log/debug/info"), ("model logging", "soil/environment.py:BaseEnvironment.log/step")])

p("C28", "Soil and plain mesa components can be mixed",
  "A plain mesa model can be run (and its collected data exported) by a soil simulation with the same results as stepping it by hand up to the same limits, plain mesa agents in a soil model are activated once per default interval and coexist with soil agents, and soil's schedulers activate agents of a plain mesa model at the requested instants, and soil agents can be activated by mesa's schedulers. Searches, counts and data collection work on such mixed populations.",
  ["programs", "configurations"], "All mixtures of soil and mesa agents, models and schedulers, with arbitrary limits and parameters.",
  "Each mixture takes different code paths; tests run one mesa example.",
  ["soil/simulation.py", "soil/time.py", "soil/agents/__init__.py"],
  [("model construction", "soil/simulation.py:Simulation._get_env"), ("scheduling plain agents", "soil/time.py"), ("filtering", "soil/agents/__init__.py:filter_agents")])

p("C29", "The fixed-step wrapper only changes the granularity of steps",
  "Wrapping an event scheduler so that it advances in fixed intervals gives, for agents that request their activations with delays, the same activations, at the same instants and in the same order, as the scheduler alone; each step performs exactly the activations that fall in its interval and advances the visible time by the interval.",
  ["schedules"], "All activation schedules, intervals (integers and binary fractions), schedulers and numbers of steps.",
  "Events falling on interval boundaries depend on the schedule; no test covers the wrapper.",
  ["soil/time.py"], [("wrapper", "soil/time.py:Lockstepper")], None, ["agent step calls", "schedule.time"])

p("C30", "The bundled agent models follow their published rules",
  "The bundled diffusion, epidemic and counter agents only make the transitions their model allows: an agent changes state only for the reasons in the model's rules (its probability parameters and its neighbours' states), probabilities of zero never fire and of one always do, and absorbing states are kept. Counters count exactly their activations and neighbours.",
  ["histories", "inputs"], "All networks, parameter settings (including all zero/one combinations), initial states and run lengths.",
  "Illegal transitions need particular neighbourhoods and parameter corners; tests run one model for a few steps.",
  ["soil/agents/BassModel.py", "soil/agents/SISaModel.py", "soil/agents/IndependentCascadeModel.py", "soil/agents/CounterModel.py"],
  [("Bass", "soil/agents/BassModel.py"), ("SISa", "soil/agents/SISaModel.py"), ("cascade", "soil/agents/IndependentCascadeModel.py"), ("counters", "soil/agents/CounterModel.py")])

p("C31", "Models and agents are also dictionaries of their attributes",
  "Every parameter given to a model is available from its initialization on, both as an attribute and as an item. Reading, writing, deleting, testing and getting items of a model (or of its attributes) are equivalent: a missing item is a KeyError, or the default given; its keys are exactly its public attributes and its length their number; turning it into a dictionary gives their current values, and iterating over it gives its scheduled agents. Agents work in the same way, except that getting an item that the agent lacks asks the model before giving the default, that `model` and `logger` are not among their keys, and that iterating over an agent gives its keys; the text of an agent shows exactly the attributes that are asked for.",
  ["histories", "inputs"], "All parameters, values (empty and falsy ones included) and sequences of item and attribute operations, on every kind of model, before and during runs.",
  "Falsy values, shadowed class attributes and deletions only matter in particular sequences; the tests never use the interface of models.",
  ["soil/environment.py", "soil/agents/__init__.py"],
  [("agents", "soil/agents/__init__.py (BaseAgent: __getitem__, get, keys, items, to_str)"), ("items", "soil/environment.py (__getitem__, __setitem__, get, keys, __len__, __iter__)"), ("parameters", "soil/environment.py (BaseEnvironment.__init__)")])

p("C32", "The guarantees hold together",
  "In a complete simulation of agents that are network agents, state machines and message receivers at once, with timed, paused and asynchronous states that send, process, search, link, create, kill and die in any combination, every guarantee holds at the same time: activations happen when due and in the right state, messages arrive once, searches and neighbourhoods match, nodes and agents correspond, and the data collected after each step describes exactly that population.",
  ["histories", "schedules"], "All programs of that kind, populations, networks and event schedulers.",
  "The parts interact through the schedule and the network (a message from an agent that has died, a search right after a birth, a node reused within an instant); tests exercise one part at a time.",
  ["soil/agents/", "soil/environment.py", "soil/time.py", "soil/datacollection.py", "soil/simulation.py"],
  [("agents", "soil/agents/__init__.py (Agent)"), ("model", "soil/environment.py (Environment)"), ("schedule", "soil/time.py")])

p("C33", "What is left to chance is fair and depends only on the seed",
  "Agents that are due at the same instant act in an order drawn uniformly and independently at each instant (or in a fixed order that does not depend on the seed, with the ordered schedulers); an agent added to a network without a node is placed uniformly on a free node; prob(p) is true with probability p, never for 0 and always for 1. The seed of the model is the only source of chance: the same seed repeats every choice and another one changes them.",
  ["inputs", "schedules"], "All populations, periods, event schedulers, topologies, probabilities and seeds.",
  "A first-mover advantage or a biased placement does not break any single run: it only shows in the distribution of the results, which tests never look at.",
  ["soil/time.py", "soil/network.py", "soil/agents/network_agents.py", "soil/agents/__init__.py", "soil/environment.py"],
  [("turns", "soil/time.py (TimedActivation.step, PQueueActivation._schedule)"), ("placement", "soil/agents/network_agents.py (__init__), soil/network.py (find_unassigned)"), ("prob", "soil/agents/__init__.py (prob)")])

p("C34", "Plots show exactly the data that was collected",
  "analysis.plot draws one line for each numeric model reporter that is not ignored, with the value recorded at each instant (or step), and one line for each value reported by the agents, with the number of agents that reported it at each instant (or step); the collected data, the dataframes and the list of ignored columns that are given do not change. A model that has agent reporters but never had agents has an empty agent dataframe.",
  ["inputs"], "All models with numeric reporters, populations that change, explicit dataframes and lists of ignored columns.",
  "The figure depends on the alignment of two dataframes over irregular instants and changing populations; the tests do not draw anything.",
  ["soil/analysis.py", "soil/environment.py"],
  [("plot", "soil/analysis.py (plot)"), ("dataframes", "soil/environment.py (agent_df, model_df)")])

p("C35", "The debugger stops where it is told to, and changes nothing",
  "With Simulation(debug=True), soil --debug or set_trace(), a debugging session begins at that point; break_state stops each time (and continue_state, the next time) an agent begins an activation in that state, optionally only for a class or for the agents with the given ids, break_state_self does it for the current agent, and break_step stops before the next step of the model; no other stops happen. soil_list, soil_agents and soil_agent show exactly the agents of the model, their states and the attributes that were asked for. After a failure with --pdb, the session is at the place of the failure. Whatever the commands, a simulation that goes on to its end gives the same results as without debugging, and a wrong command does not end it.",
  ["inputs", "histories"], "All FSM programs (inherited, overridden and generator states), places where the session begins, and sequences of debugger commands.",
  "A session is a history of commands and activations; the tests never start the debugger.",
  ["soil/debugging.py", "soil/simulation.py", "soil/__init__.py"],
  [("commands", "soil/debugging.py (Debug)"), ("start", "soil/debugging.py (set_trace, post_mortem)"), ("entry points", "soil/simulation.py (_run_model), soil/__init__.py (main)")])

p("C36", "A run that fails says so, and loses nothing else",
  "An exception raised by the model, an agent, a state, something an agent awaits, a reporter, the network generator or an exporter reaches the caller of the run as it is, whatever its type, and no other iteration begins. The iterations that finished before it have been exported completely and exactly once; results of earlier runs are still there (in place or in a backup, unless overwriting was asked for); and the definition of the simulation and the state of the process are as before, so that the next run of the same or another simulation gives the same results as if nothing had failed.",
  ["fault_sequences", "inputs"], "All places and types of exception (other than StopIteration in a generator), iterations, combinations of parameters, exporters, and entry points (run, main, Environment.run, simulation.run).",
  "A fault can happen at any point of any iteration while several exporters hold partial results; the tests never make a run fail.",
  ["soil/simulation.py", "soil/exporters.py", "soil/utils.py", "soil/time.py", "soil/agents/", "soil/environment.py", "soil/serialization.py"],
  [("run", "soil/simulation.py (run, _run_iters_for_params, _run_model)"), ("files", "soil/utils.py (open_or_reuse, safe_open), soil/exporters.py"), ("agents", "soil/time.py (step), soil/agents/")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
