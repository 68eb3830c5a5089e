From 9dedc6a613048b9a9007d34299a489219cb786f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:51 +0000
Subject: [PATCH 01/92] fix: schedulers use the model's default_interval

The attribute checked (default_interval) was not the one that was read
(interval), so any model with a default_interval failed to start.
---
 soil/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/time.py b/soil/time.py
index 9d73781..f9b1a8a 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -37,7 +37,7 @@ class DiscreteActivation(BaseScheduler):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         if hasattr(self.model, 'default_interval'):
-            self.default_interval = self.model.interval
+            self.default_interval = self.model.default_interval
 
 
 class PQueueActivation(DiscreteActivation):
-- 
2.43.0


From f48dc25d5d63a3ffef355d06841efff33643d870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:51 +0000
Subject: [PATCH 02/92] fix: honour the requested time when adding agents to a
 schedule

The requested time was passed as the 'replace' argument: agents were always
scheduled at the current time, and the priority queue dropped the entry of
another agent.
---
 soil/time.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index f9b1a8a..662de5e 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -61,7 +61,7 @@ class PQueueActivation(DiscreteActivation):
         else:
             when = float(when)
 
-        self._schedule(agent, None, when)
+        self._schedule(agent, when)
         super().add(agent)
 
     def _schedule(self, agent, when=None, replace=False):
@@ -132,11 +132,12 @@ class TimedActivation(DiscreteActivation):
             when = self.time
         else:
             when = float(when)
-        self._schedule(agent, None, when)
+        self._schedule(agent, when)
         super().add(agent)
 
     def _schedule(self, agent, when=None, replace=False):
-        when = when or self.time
+        if when is None:
+            when = self.time
         pos = len(self._queue)
         for (ix, l) in enumerate(self._queue):
             if l[0] == when:
-- 
2.43.0


From 737e169fc187e363a842ff919f3d31d66d52b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:51 +0000
Subject: [PATCH 03/92] fix: adding agents within a step does not corrupt the
 priority queue

The entry of the running agent was removed after its step, assuming it was
still the first one. If an agent had been added in the meantime, the entry of
the new agent was replaced instead.
---
 soil/time.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 662de5e..5bb392b 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -95,18 +95,20 @@ class PQueueActivation(DiscreteActivation):
                 next_time = when
                 break
 
+            # The agent may add other agents to the queue in its step, so its
+            # own entry needs to be removed before that
+            heappop(self._queue)
+
             try:
                 when = agent.step() or self.default_interval
                 when += now
             except DeadAgent:
-                heappop(self._queue)
                 continue
 
             if when == INFINITY:
-                heappop(self._queue)
                 continue
 
-            self._schedule(agent, when, replace=True)
+            self._schedule(agent, when)
 
         self.steps += 1
 
-- 
2.43.0


From 22464242743778508f3318e03a7f6ec0ec39279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:51 +0000
Subject: [PATCH 04/92] fix: agents that have been removed from the schedule
 are not activated

Removing an agent (e.g., by killing it from another agent) did not remove its
pending activation.
---
 soil/time.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 5bb392b..d2f46e6 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -99,13 +99,16 @@ class PQueueActivation(DiscreteActivation):
             # own entry needs to be removed before that
             heappop(self._queue)
 
+            if agent not in self._agents:
+                continue
+
             try:
                 when = agent.step() or self.default_interval
                 when += now
             except DeadAgent:
                 continue
 
-            if when == INFINITY:
+            if when == INFINITY or agent not in self._agents:
                 continue
 
             self._schedule(agent, when)
@@ -170,13 +173,16 @@ class TimedActivation(DiscreteActivation):
         if self._shuffle:
             self.model.random.shuffle(bucket)
         for agent in bucket:
+            if agent not in self._agents:
+                continue
+
             try:
                 when = agent.step() or self.default_interval
                 when += now
             except DeadAgent:
                 continue
 
-            if when != INFINITY:
+            if when != INFINITY and agent in self._agents:
                 self._schedule(agent, when, replace=True)
 
         self.steps += 1
-- 
2.43.0


From b87b0852777560a9482f3207ccd36c8f8675c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:51 +0000
Subject: [PATCH 05/92] fix: stop the model when there are no more activations
 pending

With TimedActivation, a simulation limited by its number of steps (or with no
limits) would never end once all its agents had finished.
---
 soil/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/time.py b/soil/time.py
index d2f46e6..09701a5 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -159,6 +159,7 @@ class TimedActivation(DiscreteActivation):
         an agent will signal when it wants to be scheduled next.
         """
         if not self._queue:
+            self.model.running = False
             return
 
         now = self.time
@@ -190,6 +191,7 @@ class TimedActivation(DiscreteActivation):
             self.time = self._queue[0][0]
         else:
             self.time = INFINITY
+            self.model.running = False
 
 
 class ShuffledTimedActivation(TimedActivation):
-- 
2.43.0


From edee4f547733405aa3ca9fb6a4d1594eeeeb96ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 06/92] fix: apply every attribute criterion when filtering
 agents

The filters are lazy, so all of them used the name and values of the last
attribute.
---
 soil/agents/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 08f71b5..150bc67 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -481,7 +481,9 @@ def filter_agents(
     for k, vs in state.items():
         if not isinstance(vs, list):
             vs = [vs]
-        f = filter(lambda agent: any(getattr(agent, k, None) == v for v in vs), f)
+        f = filter(
+            lambda agent, k=k, vs=vs: any(getattr(agent, k, None) == v for v in vs), f
+        )
 
     if limit is not None:
         f = islice(f, limit)
-- 
2.43.0


From 426749cb309d71a5181fedd4883e715aa5bf761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 07/92] fix: filtering agents does not modify the state passed
 by the caller

---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 150bc67..461da30 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -475,7 +475,7 @@ def filter_agents(
     if agent_class is not None:
         f = filter(lambda agent: isinstance(agent, agent_class), f)
 
-    state = state or dict()
+    state = dict(state or {})
     state.update(kwargs)
 
     for k, vs in state.items():
-- 
2.43.0


From be78829e76c8d5dcf760d53be67cd6e5a23875be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 08/92] fix: filtering by state_id works with plain mesa agents

---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 461da30..75183cb 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -470,7 +470,7 @@ def filter_agents(
             agent_class = tuple([agent_class])
 
     if state_id is not None:
-        f = filter(lambda agent: agent.get("state_id", None) in state_id, f)
+        f = filter(lambda agent: getattr(agent, "state_id", None) in state_id, f)
 
     if agent_class is not None:
         f = filter(lambda agent: isinstance(agent, agent_class), f)
-- 
2.43.0


From 59a83e48a7a5483f993f2de8d2555721cba9e59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 09/92] fix: an empty list of ids does not match every agent

---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 75183cb..918b64e 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -454,7 +454,7 @@ def filter_agents(
     if id_args:
         ids += id_args
 
-    if ids:
+    if ids or unique_id is not None:
         f = (agent for agent in agents if agent.unique_id in ids)
     else:
         f = agents
-- 
2.43.0


From 20b4e181dc3d0027aeb3833aa126f7ddf1520c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 10/92] fix: iteration, lookup and membership in views of
 agents

The views assumed a dictionary of agents, but schedules use mesa's AgentSet.
---
 soil/agents/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 918b64e..bee6294 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -401,13 +401,14 @@ class AgentView(Mapping, Set):
         return len(self._agents)
 
     def __iter__(self):
-        yield from self._agents.values()
+        yield from self._agents
 
     def __getitem__(self, agent_id):
         if isinstance(agent_id, slice):
             raise ValueError(f"Slicing is not supported")
-        if agent_id in self._agents:
-            return self._agents[agent_id]
+        for agent in self._agents:
+            if agent.unique_id == agent_id:
+                return agent
         raise ValueError(f"Agent {agent_id} not found")
 
     def filter(self, *args, **kwargs):
@@ -420,10 +421,10 @@ class AgentView(Mapping, Set):
         return list(self.filter(*args, **kwargs))
 
     def __contains__(self, agent_id):
-        return agent_id in self._agents
+        return any(agent is agent_id or agent.unique_id == agent_id for agent in self._agents)
 
     def __str__(self):
-        return str(list(unique_id for unique_id in self.keys()))
+        return str(list(agent.unique_id for agent in self))
 
     def __repr__(self):
         return f"{self.__class__.__name__}({self})"
-- 
2.43.0


From 756baca81eedc4cd839c18b990d27129da735dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 11/92] fix: network agents can look for agents by id

---
 soil/agents/network_agents.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index 2d0a948..cbb3363 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -38,7 +38,7 @@ class NetworkAgent(BaseAgent):
 
     def iter_agents(self, unique_id=None, *, limit_neighbors=False, **kwargs):
         unique_ids = None
-        if unique_ids is not None:
+        if unique_id is not None:
             try:
                 unique_ids = set(unique_id)
             except TypeError:
@@ -50,12 +50,13 @@ class NetworkAgent(BaseAgent):
                 agent = self.G.nodes[node_id].get("agent")
                 if agent is not None:
                     neighbor_ids.add(agent.unique_id)
-            if unique_ids:
+            if unique_ids is not None:
                 unique_ids = unique_ids & neighbor_ids
             else:
                 unique_ids = neighbor_ids
             if not unique_ids:
                 return
+        if unique_ids is not None:
             unique_ids = list(unique_ids)
         yield from super().iter_agents(unique_id=unique_ids, **kwargs)
 
-- 
2.43.0


From a42c6c8da5094571b6a4b9421ed4443d85c2da67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 12/92] fix: always use a free node for a new agent if there is
 one

Nodes were sampled with replacement, so free nodes could be missed.
---
 soil/agents/network_agents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index cbb3363..4a903e8 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -8,7 +8,7 @@ class NetworkAgent(BaseAgent):
         self.G = topology or self.model.G
         assert self.G is not None, "Network agents should have a network"
         if node_id is None:
-            nodes = self.random.choices(list(self.G.nodes), k=len(self.G))
+            nodes = self.random.sample(list(self.G.nodes), k=len(self.G))
             for n_id in nodes:
                 if "agent" not in self.G.nodes[n_id] or self.G.nodes[n_id]["agent"] is None:
                     node_id = n_id
-- 
2.43.0


From 039814a53fa2329a5f932ad95b639ee5568cb468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 13/92] fix: new nodes for agents do not reuse existing nodes

---
 soil/agents/network_agents.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index 4a903e8..a3d3b1e 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -15,6 +15,8 @@ class NetworkAgent(BaseAgent):
                     break
             else:
                 node_id = len(self.G)
+                while node_id in self.G:
+                    node_id += 1
                 self.info(f"All nodes ({len(self.G)}) have an agent assigned, adding a new node to the graph for agent {self.unique_id}")
                 self.G.add_node(node_id)
         assert node_id is not None
-- 
2.43.0


From a2194d6906af45c3ed47222a22e5b9d64458f2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 14/92] fix: add_edge sets the attributes of the edge

Instead, every edge had a single attribute named edge_attr_dict.
---
 soil/agents/network_agents.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index a3d3b1e..b9cb104 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -74,7 +74,7 @@ class NetworkAgent(BaseAgent):
         self.G.remove_node(self.node_id)
         self.node_id = None
 
-    def add_edge(self, other, edge_attr_dict=None, *edge_attrs):
+    def add_edge(self, other, edge_attr_dict=None, **edge_attrs):
         if self.node_id not in self.G.nodes(data=False):
             raise ValueError(
                 "{} not in list of existing agents in the network".format(
@@ -87,7 +87,7 @@ class NetworkAgent(BaseAgent):
             )
 
         self.G.add_edge(
-            self.node_id, other.node_id, edge_attr_dict=edge_attr_dict, *edge_attrs
+            self.node_id, other.node_id, **{**(edge_attr_dict or {}), **edge_attrs}
         )
 
     def die(self, remove=True):
-- 
2.43.0


From c11828e38259fa6f7663114c242c96295cf2f7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:15 +0000
Subject: [PATCH 15/92] fix: received returns the messages that have been
 processed

It returned the inbox, which is emptied when messages are processed.
---
 soil/agents/evented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 5cf69dc..bbbb950 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -22,7 +22,7 @@ class EventedAgent(BaseAgent):
             if self._inbox:
                 msgs = self._inbox
                 if process:
-                    self.process_messages()
+                    msgs = self.process_messages()
                 return msgs
             yield self.delay(delay)
         raise TimedOut("No message received")
-- 
2.43.0


From 6adb7c8108dafd90fba27e2470622c4edcd01a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:15 +0000
Subject: [PATCH 16/92] fix: agents can receive messages while they are
 processing others

A message sent to an agent by its own on_receive broke the iteration over the
inbox, and any other would have been lost.
---
 soil/agents/evented.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index bbbb950..8161fc6 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -43,7 +43,10 @@ class EventedAgent(BaseAgent):
 
     def process_messages(self):
         valid = list()
-        for msg in self._inbox:
+        for _ in range(len(self._inbox)):
+            if not self._inbox:
+                break
+            msg = self._inbox.popleft()
             self._processed += 1
             if msg.expired(self.now):
                 continue
@@ -51,7 +54,6 @@ class EventedAgent(BaseAgent):
             reply = self.on_receive(msg.payload, sender=msg.sender)
             if isinstance(msg, Ask):
                 msg.reply = reply
-        self._inbox.clear()
         return valid
 
 
-- 
2.43.0


From 0d7459c5b35aaa594ed0aee57f9a2e025f380b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:15 +0000
Subject: [PATCH 17/92] fix: any reply other than None is a valid reply to ask

---
 soil/agents/evented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 8161fc6..1815e33 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -36,7 +36,7 @@ class EventedAgent(BaseAgent):
         self._inbox.append(ask)
         expiration = float("inf") if timeout is None else self.now + timeout
         while self.now < expiration:
-            if ask.reply:
+            if ask.reply is not None:
                 return ask.reply
             yield self.delay(delay)
         raise TimedOut("No reply received")
-- 
2.43.0


From 789ccd4817f7e7a58bc1df516d477002f079999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:15 +0000
Subject: [PATCH 18/92] fix: honour the expiration time given to ask and
 received

---
 soil/agents/evented.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 1815e33..30db2d8 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -16,7 +16,7 @@ class EventedAgent(BaseAgent):
 
     @coroutine
     def received(self, expiration=None, timeout=60, delay=1, process=True):
-        if not expiration:
+        if expiration is None:
             expiration = self.now + timeout
         while self.now < expiration:
             if self._inbox:
@@ -34,7 +34,8 @@ class EventedAgent(BaseAgent):
     def ask(self, msg, expiration=None, timeout=None, delay=1):
         ask = Ask(timestamp=self.now, payload=msg, sender=self)
         self._inbox.append(ask)
-        expiration = float("inf") if timeout is None else self.now + timeout
+        if expiration is None:
+            expiration = float("inf") if timeout is None else self.now + timeout
         while self.now < expiration:
             if ask.reply is not None:
                 return ask.reply
-- 
2.43.0


From 5d9822cf5f17d8f96166f668b3a263c226eca60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:15 +0000
Subject: [PATCH 19/92] fix: evented agents can get messages while they are
 being initialized

---
 soil/agents/evented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 30db2d8..6dd2d01 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -7,9 +7,9 @@ from types import coroutine
 
 class EventedAgent(BaseAgent):
     def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
         self._inbox = deque()
         self._processed = 0
+        super().__init__(*args, **kwargs)
 
     def on_receive(self, *args, **kwargs):
         pass
-- 
2.43.0


From fc02dc80699717483a09e421aa6a0d19d5a3fe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:15 +0000
Subject: [PATCH 20/92] fix: allow transitions to states with a two-letter id

---
 soil/agents/fsm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index 85a5fb5..fd1bb23 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -144,7 +144,8 @@ class FSM(BaseAgent, metaclass=MetaFSM):
         next_state = yield from self._state.step(self)
 
         try:
-            next_state, when = next_state
+            # The id of a state is iterable too, but it does not include a delay
+            next_state, when = [next_state] if isinstance(next_state, str) else next_state
         except (TypeError, ValueError) as ex:
             try:
                 self._set_state(next_state)
-- 
2.43.0


From bbc21d9f58225e8db24f58889a5ef0cd9ec773c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:15 +0000
Subject: [PATCH 21/92] fix: default state of FSM subclasses

A subclass that redefined the (inherited) default state started in the original
version of the state, and the default state of a subclass could be overridden
by that of its ancestors.
---
 soil/agents/fsm.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index fd1bb23..ad84964 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -83,10 +83,9 @@ class MetaFSM(MetaAgent):
         default_state = None
         for i in bases:
             if isinstance(i, MetaFSM):
-                for state_id, state in i._states.items():
-                    if state.default:
-                        default_state = state
-                    states[state_id] = state
+                states.update(i._states)
+                if i._state is not None:
+                    default_state = i._state
 
         # Add new states
         for attr, func in namespace.items():
@@ -95,6 +94,10 @@ class MetaFSM(MetaAgent):
                     default_state = func
                 states[func.name] = func
 
+        # The inherited default state may have been redefined
+        if default_state is not None:
+            default_state = states[default_state.name]
+
         namespace.update(
             {
                 "_state": default_state,
-- 
2.43.0


From 482adda2a64815e60aab9ac3c1969dd9247cd2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:15 +0000
Subject: [PATCH 22/92] fix: agent reporters that are limited to a type of
 agent

The new reporter called itself, instead of the original reporter.
---
 soil/environment.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index 743da85..10a91cb 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -207,10 +207,13 @@ class BaseEnvironment(Model):
         self.datacollector._new_model_reporter(name, func)
 
     def add_agent_reporter(self, name, reporter=None, agent_type=None):
-        if not agent_type and not reporter:
+        if not reporter:
             reporter = name
-        elif agent_type:
-            reporter = lambda a: reporter(a) if isinstance(a, agent_type) else None
+        if agent_type:
+            func = reporter
+            if isinstance(func, str):
+                func = lambda a, attr=reporter: getattr(a, attr, None)
+            reporter = lambda a: func(a) if isinstance(a, agent_type) else None
         self.datacollector._new_agent_reporter(name, reporter)
 
     @classmethod
-- 
2.43.0


From bbc3b21b7ac6fce91873923d98b261690504ad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:15 +0000
Subject: [PATCH 23/92] fix: collect the value returned by reported methods

The bound method itself was collected.
---
 soil/environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 10a91cb..2d650ae 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -57,10 +57,12 @@ class BaseEnvironment(Model):
         )
         for k in dir(cls):
             v = getattr(cls, k)
+            reporter = v
             if isinstance(v, property):
                 v = v.fget
+                reporter = k
             if getattr(v, "add_to_report", False):
-                self.add_model_reporter(k, k)
+                self.add_model_reporter(k, reporter)
 
         return self
 
-- 
2.43.0


From 0d3f1d8290bd285ad606dda631170b3d5108eeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:15 +0000
Subject: [PATCH 24/92] fix: time of each row in the agent dataframe

Levels were replaced by position, which fails for repeated times and assigns the
wrong times when there are no agents in some of the steps.
---
 soil/environment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 2d650ae..eb964bc 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -13,6 +13,7 @@ from copy import deepcopy
 
 
 import networkx as nx
+import pandas as pd
 
 from mesa import Model, Agent
 
@@ -130,7 +131,9 @@ class BaseEnvironment(Model):
             df.index.rename(["step", "agent_id"], inplace=True)
             return df
         model_df = self.datacollector.get_model_vars_dataframe()
-        df.index = df.index.set_levels(model_df.time, level=0).rename(["time", "agent_id"])
+        df.index = pd.MultiIndex.from_arrays(
+            [df.index.get_level_values(0).map(model_df.time), df.index.get_level_values(1)],
+            names=["time", "agent_id"])
         return df
 
     def model_df(self, steps=False):
-- 
2.43.0


From 7cb0dcd2eb36074f2d90544979789ff85272bb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 25/92] fix: create the output folder in the SQLite exporter

---
 soil/exporters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soil/exporters.py b/soil/exporters.py
index 8986453..b009656 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -127,6 +127,7 @@ class SQLite(Exporter):
 
         self.dbpath = os.path.join(self.outdir, f"{self.simulation.name}.sqlite")
         logger.info("Dumping results to %s", self.dbpath)
+        os.makedirs(self.outdir, exist_ok=True)
         if self.simulation.backup:
             try_backup(self.dbpath, remove=True)
         
-- 
2.43.0


From 8ee6e20d9be2a3568f27f8a7b0c517468d4879fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 26/92] fix: exported databases of simulations without
 parameters can be read

The parameters table was created without columns, so later simulations could
not be added to it either.
---
 soil/exporters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index b009656..f622842 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -155,7 +155,8 @@ class SQLite(Exporter):
                            "params_id": params_id,
                            "iteration_id": env.id,
                            "key": k,
-                           "value": serialize(v)[0]} for (k,v) in params.items()]).to_sql("parameters", con=self.engine, if_exists="append")
+                           "value": serialize(v)[0]} for (k,v) in params.items()],
+                         columns=["simulation_id", "params_id", "iteration_id", "key", "value"]).to_sql("parameters", con=self.engine, if_exists="append")
 
             for (t, df) in self.get_dfs(env, params_id=params_id):
                 df.to_sql(t, con=self.engine, if_exists="append")
-- 
2.43.0


From 55886e307b80b252b7c72cccbb3f0c7549aaee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 27/92] fix: databases of simulations without agent reporters
 can be read

---
 soil/analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soil/analysis.py b/soil/analysis.py
index ab7164c..28d5295 100644
--- a/soil/analysis.py
+++ b/soil/analysis.py
@@ -46,7 +46,9 @@ def read_sql(fpath=None, name=None, include_agents=False):
                                     "simulation_id", "params_id",
                                     "iteration_id", "step"
                                 ])
-        agents = pd.read_sql_table("agents", con=conn, index_col=["simulation_id", "params_id", "iteration_id", "step", "agent_id"])
+        agents = pd.DataFrame()
+        if sqlalchemy.inspect(engine).has_table("agents"):
+            agents = pd.read_sql_table("agents", con=conn, index_col=["simulation_id", "params_id", "iteration_id", "step", "agent_id"])
         config = pd.read_sql_table("configuration", con=conn, index_col="simulation_id")
         parameters = pd.read_sql_table("parameters", con=conn, index_col=["iteration_id", "params_id", "simulation_id"])
         try:
-- 
2.43.0


From d8e95fa315acba968611b005ea04487706d000fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 28/92] fix: GEXF exporter for networks with agents or
 positions

Agents and positions cannot be serialized by networkx, so the exporter only
worked for networks without agents. Also, do not modify the original graph.
---
 soil/exporters.py | 2 +-
 soil/network.py   | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index f622842..e06c901 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -188,7 +188,7 @@ class gexf(Exporter):
             "[GEXF] Dumping simulation {} iteration {}".format(self.simulation.name, env.id)
         ):
             with self.output("{}.gexf".format(env.id), mode="wb") as f:
-                nx.write_gexf(env.G, f)
+                network.dump_gexf(env.G, f)
 
 
 class dummy(Exporter):
diff --git a/soil/network.py b/soil/network.py
index 6fac221..272a05a 100644
--- a/soil/network.py
+++ b/soil/network.py
@@ -69,7 +69,10 @@ def find_unassigned(G, shuffle=False, random=random):
 
 
 def dump_gexf(G, f):
+    G = G.copy()
     for node in G.nodes():
+        # Agents cannot be represented in a GEXF file
+        G.nodes[node].pop("agent", None)
         if "pos" in G.nodes[node]:
             G.nodes[node]["viz"] = {
                 "position": {
-- 
2.43.0


From f362397f1fd18a54a1fd2c18c0e94739152ff939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 29/92] fix: write the header of every CSV file only once

---
 soil/exporters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index e06c901..ad44119 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -175,7 +175,7 @@ class csv(Exporter):
         ):
             for (df_name, df) in self.get_dfs(env, params_id=params_id):
                 with self.output("{}.{}.csv".format(env.id, df_name), mode="a") as f:
-                    df.to_csv(f)
+                    df.to_csv(f, header=(f.tell() == 0))
 
 
 class gexf(Exporter):
-- 
2.43.0


From 26a0a5e2b24ba09c49a2d238fae019647147edb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 30/92] fix: the reporters of an iteration do not affect other
 iterations

The dictionaries of reporters were shared and modified by every environment.
---
 soil/datacollection.py | 6 +++---
 soil/simulation.py     | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/soil/datacollection.py b/soil/datacollection.py
index 9687435..d1d8dd9 100644
--- a/soil/datacollection.py
+++ b/soil/datacollection.py
@@ -3,9 +3,9 @@ from mesa import DataCollector as MDC
 
 class SoilCollector(MDC):
     def __init__(self, model_reporters=None, agent_reporters=None, tables=None, **kwargs):
-        model_reporters = model_reporters or {}
-        agent_reporters = agent_reporters or {}
-        tables = tables or {}
+        model_reporters = dict(model_reporters or {})
+        agent_reporters = dict(agent_reporters or {})
+        tables = dict(tables or {})
         if 'agent_count' not in model_reporters:
             model_reporters['agent_count'] = lambda m: m.schedule.get_agent_count()
         if 'time' not in model_reporters:
diff --git a/soil/simulation.py b/soil/simulation.py
index 389207b..0b79f6d 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -217,9 +217,9 @@ class Simulation:
 
         iteration_id = str(iteration_id)
 
-        agent_reporters = self.agent_reporters
+        agent_reporters = dict(self.agent_reporters)
         agent_reporters.update(params.pop("agent_reporters", {}))
-        model_reporters = self.model_reporters
+        model_reporters = dict(self.model_reporters)
         model_reporters.update(params.pop("model_reporters", {}))
 
         return self.model(
-- 
2.43.0


From 18d1556d82dd16d6c1dc108dc22334b3369060c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 31/92] fix: every iteration uses its own copy of the
 parameters

Mutable parameters (e.g., the topology) were shared by all iterations, so the
agents of the first iteration were already in the network of the rest.
---
 soil/simulation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/soil/simulation.py b/soil/simulation.py
index 0b79f6d..62d46e1 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -18,6 +18,7 @@ from typing import Any, Dict, Union, Optional, List
 
 from functools import partial
 from contextlib import contextmanager
+from copy import deepcopy
 from itertools import product
 import json
 
@@ -212,11 +213,21 @@ class Simulation:
 
                     yield env
 
+    @staticmethod
+    def _copy_param(value):
+        try:
+            return deepcopy(value)
+        except Exception:  # Not every object can be copied
+            return value
+
     def _get_env(self, iteration_id, params):
         """Create an environment for a iteration of the simulation"""
 
         iteration_id = str(iteration_id)
 
+        # Iterations should not share any state
+        params = {k: self._copy_param(v) for (k, v) in params.items()}
+
         agent_reporters = dict(self.agent_reporters)
         agent_reporters.update(params.pop("agent_reporters", {}))
         model_reporters = dict(self.model_reporters)
-- 
2.43.0


From 2d332946b17aa7234936ba34c772d90d8d31a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 32/92] fix: combine the matrix with the rest of the parameters

The parameters were not used in the combinations of the matrix. Instead, they
were used in an additional run without any of the values in the matrix.
---
 soil/simulation.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 62d46e1..e062558 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -174,16 +174,11 @@ class Simulation:
 
     def _collect_params(self):
 
+        assert isinstance(self.matrix, dict)
         parameters = []
-        if self.parameters:
-            parameters.append(self.parameters)
-        if self.matrix:
-            assert isinstance(self.matrix, dict)
-            for values in product(*(self.matrix.values())):
-                parameters.append(dict(zip(self.matrix.keys(), values)))
-
-        if not parameters:
-            parameters = [{}]
+        for values in product(*(self.matrix.values())):
+            parameters.append({**self.parameters, **dict(zip(self.matrix.keys(), values))})
+
         if self.dump:
             self.logger.info("Output directory: %s", self.outdir)
 
-- 
2.43.0


From 5bdcb17f70a3a7b4cf9dc933f3ebc4216a3b7858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 33/92] fix: postponed simulations with a matrix run each
 combination only once

One simulation was queued per combination, but each of them kept the matrix.
---
 soil/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index e062558..f2a25ea 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -46,7 +46,7 @@ def do_not_run():
 def _iter_queued():
     while _QUEUED:
         (cls, params) = _QUEUED.pop(0)
-        yield replace(cls, parameters=params)
+        yield replace(cls, parameters=params, matrix={})
 
 
 # TODO: change documentation for simulation
-- 
2.43.0


From 73f20eec6ad700225c81c6a04100e9be77115951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 34/92] fix: configurations without a file are relative to the
 current directory

The parent of the current directory was used instead.
---
 soil/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index f2a25ea..8a78015 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -312,7 +312,7 @@ def iter_from_config(*cfgs, **kwargs):
             d = dict(config)
             d.update(kwargs)
             if "dir_path" not in d:
-                d["dir_path"] = os.path.dirname(path)
+                d["dir_path"] = path if os.path.isdir(path) else os.path.dirname(path)
             yield Simulation(**d)
 
 
-- 
2.43.0


From 7400121df7df5a17671279b19809419dc92368bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 35/92] fix: clean up when a file with simulations cannot be
 loaded

The simulations queued by the file were returned with those of the next file,
and the folder of the file was left in the import path.
---
 soil/simulation.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 8a78015..40c0673 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -333,14 +333,21 @@ def iter_from_py(pyfile, module_name='imported_file', **kwargs):
         assert _AVOID_RUNNING
         spec = importlib.util.spec_from_file_location(module_name, pyfile)
         folder = os.path.dirname(pyfile)
+        if not spec:
+            raise ValueError(f"{pyfile} does not seem to be a Python module")
         if folder not in sys.path:
             added = True
             sys.path.append(folder)
-        if not spec:
-            raise ValueError(f"{pyfile} does not seem to be a Python module")
         module = importlib.util.module_from_spec(spec)
         sys.modules[module_name] = module
-        spec.loader.exec_module(module)
+        try:
+            spec.loader.exec_module(module)
+        except BaseException:
+            _QUEUED.clear()
+            del sys.modules[module_name]
+            if added:
+                sys.path.remove(folder)
+            raise
         for (_name, sim) in inspect.getmembers(module, lambda x: isinstance(x, Simulation)):
             sims.append(sim)
         for sim in _iter_queued():
@@ -353,10 +360,10 @@ def iter_from_py(pyfile, module_name='imported_file', **kwargs):
                 sims.append(Simulation(model=env, **kwargs))
         del sys.modules[module_name]
     assert not _AVOID_RUNNING
-    if not sims:
-        raise AttributeError(f"No valid configurations found in {pyfile}")
     if added:
         sys.path.remove(folder)
+    if not sims:
+        raise AttributeError(f"No valid configurations found in {pyfile}")
     for sim in sims:
         yield replace(sim, **kwargs)
 
-- 
2.43.0


From 12608924f2a769799e221d31a07b4df87e97b9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:36 +0000
Subject: [PATCH 36/92] fix: keep the type of the items in lists when
 serializing a simulation

Every item was turned into a string, and empty strings and lists into
dictionaries.
---
 soil/serialization.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 6b70554..dca973e 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -205,13 +205,27 @@ def serialize_dict(d, known_modules=KNOWN_MODULES):
         if isinstance(v, dict):
             d[k] = serialize_dict(v, known_modules=known_modules)
         elif isinstance(v, list):
-            for ix in range(len(v)):
-                v[ix] = serialize_dict(v[ix], known_modules=known_modules)
+            d[k] = serialize_list(v, known_modules=known_modules)
         elif isinstance(v, type):
             d[k] = serialize(v, known_modules=known_modules)[1]
     return d
 
 
+def serialize_list(lst, known_modules=KNOWN_MODULES):
+    res = []
+    for v in lst:
+        if isinstance(v, dict):
+            v = serialize_dict(v, known_modules=known_modules)
+        elif isinstance(v, list):
+            v = serialize_list(v, known_modules=known_modules)
+        elif isinstance(v, type):
+            v = serialize(v, known_modules=known_modules)[1]
+        elif v is not None and not isinstance(v, (str, bytes, int, float, tuple)):
+            v = serialize(v, known_modules=known_modules)[0]
+        res.append(v)
+    return res
+
+
 IS_CLASS = re.compile(r"<class '(.*)'>")
 
 
-- 
2.43.0


From 5f1446606e6a3abb6c7fbe7cb6f3171b5ac5478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:36 +0000
Subject: [PATCH 37/92] fix: names of classes that are also defined in other
 modules

The short name of a class was used if any of the known modules (or the builtins)
contained a class with the same name, which is then the class that would be
loaded.
---
 soil/serialization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index dca973e..b5be476 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -169,17 +169,17 @@ def name(value, known_modules=KNOWN_MODULES):
     if not isinstance(value, type):  # Get the class name first
         value = type(value)
     tname = value.__name__
-    if hasattr(builtins(), tname):
+    if getattr(builtins(), tname, None) is value:
         return tname
     modname = value.__module__
     if modname == "__main__":
         return tname
-    if known_modules and modname in known_modules:
-        return tname
     for kmod in known_modules:
         module = get_module(kmod)
         if hasattr(module, tname):
-            return tname
+            if getattr(module, tname) is value:
+                return tname
+            break
     return "{}.{}".format(modname, tname)
 
 
-- 
2.43.0


From 3ff055c5207c9f6858941d7d8b6e7aee6568285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:36 +0000
Subject: [PATCH 38/92] fix: honour the --output option

---
 soil/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index a4ce59d..10faaa6 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -180,8 +180,7 @@ def main(
         sys.path.append(os.getcwd())
     if args.module:
         importlib.import_module(args.module)
-    if output is None:
-        output = args.output
+    output = args.output
 
     debug = debug or args.debug
 
-- 
2.43.0


From 3904037902f5eb30e62968c89ab72606e6ee52ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:36 +0000
Subject: [PATCH 39/92] fix: do not ignore the limits of a simulation in the
 command line

max_time and max_steps were reset when they were not given as arguments.
---
 soil/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index 10faaa6..c13d51a 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -248,9 +248,12 @@ def main(
             if args.only_convert:
                 print(sim.to_yaml())
                 continue
-            max_time = float(args.max_time) if args.max_time != "-1" else None
-            max_steps = float(args.max_steps) if args.max_steps != "-1" else None
-            res.append(sim.run(max_time=max_time, max_steps=max_steps))
+            limits = {}
+            if args.max_time != "-1":
+                limits["max_time"] = float(args.max_time)
+            if args.max_steps != "-1":
+                limits["max_steps"] = float(args.max_steps)
+            res.append(sim.run(**limits))
 
     except Exception as ex:
         if args.pdb:
-- 
2.43.0


From 54932cdbec75d1d74a0f96205dd6787008460a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:36 +0000
Subject: [PATCH 40/92] fix: do not overwrite backups made in the same second

---
 soil/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/soil/utils.py b/soil/utils.py
index 3a00a9b..1d82914 100644
--- a/soil/utils.py
+++ b/soil/utils.py
@@ -60,6 +60,11 @@ def try_backup(path, remove=False):
     if not os.path.exists(backup_dir):
         os.makedirs(backup_dir)
     newpath = os.path.join(backup_dir, "{}@{}".format(os.path.basename(path), stamp))
+    # Do not overwrite other backups from the same second
+    basepath, ix = newpath, 1
+    while os.path.exists(newpath):
+        newpath = "{}_{}".format(basepath, ix)
+        ix += 1
     if remove:
         move(path, newpath)
     else:
-- 
2.43.0


From 299d51aa5399b6f240a2b2f64b6369a079742abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:36 +0000
Subject: [PATCH 41/92] fix: logging with keyword arguments

---
 soil/agents/__init__.py | 4 ++--
 soil/environment.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index bee6294..2b1a0af 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -253,8 +253,8 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
             return
         message = " ".join(str(i) for i in message)
         message = "[@{:>4}]\t{:>10}: {}".format(self.now, repr(self), message)
-        for k, v in kwargs:
-            message += " {k}={v} ".format(k, v)
+        for k, v in kwargs.items():
+            message += f" {k}={v} "
         extra = {}
         extra["now"] = self.now
         extra["unique_id"] = self.unique_id
diff --git a/soil/environment.py b/soil/environment.py
index eb964bc..51e680c 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -184,8 +184,8 @@ class BaseEnvironment(Model):
             return
         message = message + " ".join(str(i) for i in args)
         message = " @{:>3}: {}".format(self.now, message)
-        for k, v in kwargs:
-            message += " {k}={v} ".format(k, v)
+        for k, v in kwargs.items():
+            message += f" {k}={v} "
         extra = {}
         extra["now"] = self.now
         extra["id"] = self.id
-- 
2.43.0


From 1ba712f995315fae2c6597f0dd4c80340e396552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:36 +0000
Subject: [PATCH 42/92] fix: log reported values of any type

Some types, such as None, do not support format specifications.
---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 51e680c..7b3d215 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -203,7 +203,7 @@ class BaseEnvironment(Model):
             msg = "Model data:\n"
             max_width = max(len(k) for k in self.datacollector.model_vars.keys())
             for (k, v) in self.datacollector.model_vars.items():
-                msg += f"\t{k:<{max_width}}: {v[-1]:>6}\n"
+                msg += f"\t{k:<{max_width}}: {str(v[-1]):>6}\n"
             self.logger.debug(f"--- Steps: {self.schedule.steps:^5} - Time: {self.now:^5} --- " + msg)
 
     def add_model_reporter(self, name, func=None):
-- 
2.43.0


From efe5ed3234c1aa9e5068455679f4ddfec4e8b98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:36 +0000
Subject: [PATCH 43/92] fix: transitions of the SISa model

* The neighbors in a discontent state were never found
* Content agents never became discontent
* content_neutral was ignored, discontent_neutral was used instead
---
 soil/agents/SISaModel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soil/agents/SISaModel.py b/soil/agents/SISaModel.py
index b5dbbe3..f6cf475 100644
--- a/soil/agents/SISaModel.py
+++ b/soil/agents/SISaModel.py
@@ -64,7 +64,7 @@ class SISaModel(Agent):
             self.model.content_discontent, self.model.variance_c_d
         )
         self.content_neutral = random.normal(
-            self.model.discontent_neutral, self.model.standard_variance
+            self.model.content_neutral, self.model.standard_variance
         )
 
     @default_state
@@ -77,7 +77,7 @@ class SISaModel(Agent):
             return self.content
 
         # Infected
-        discontent_neighbors = self.count_neighbors(state_id=self.discontent)
+        discontent_neighbors = self.count_neighbors(state_id=self.discontent.id)
         if self.prob(discontent_neighbors * self.neutral_discontent_infected_prob):
             return self.discontent
         content_neighbors = self.count_neighbors(state_id=self.content.id)
@@ -106,5 +106,5 @@ class SISaModel(Agent):
         # Superinfected
         discontent_neighbors = self.count_neighbors(state_id=self.discontent.id)
         if self.prob(discontent_neighbors * self.content_discontent):
-            self.discontent
+            return self.discontent
         return self.content
-- 
2.43.0


From 2d3a05e3a8042d01e2b9751116148a09504ea4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:36 +0000
Subject: [PATCH 44/92] fix: BassModel could not be used

It called a method that does not exist, and it was not a network agent. Aware
agents need to remain in the network, or they cannot be imitated.
---
 soil/agents/BassModel.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/soil/agents/BassModel.py b/soil/agents/BassModel.py
index 6049bd5..975f479 100644
--- a/soil/agents/BassModel.py
+++ b/soil/agents/BassModel.py
@@ -1,7 +1,8 @@
-from . import FSM, state, default_state
+from . import Agent, state, default_state
+from ..time import INFINITY
 
 
-class BassModel(FSM):
+class BassModel(Agent):
     """
     Settings:
         innovation_prob
@@ -10,9 +11,6 @@ class BassModel(FSM):
 
     sentimentCorrelation = 0
 
-    def step(self):
-        self.behaviour()
-
     @default_state
     @state
     def innovation(self):
@@ -28,4 +26,4 @@ class BassModel(FSM):
 
     @state
     def aware(self):
-        self.die()
\ No newline at end of file
+        return INFINITY
-- 
2.43.0


From 149edc00af062daf8c84af8430e1fb37b9c43cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:36 +0000
Subject: [PATCH 45/92] fix: IndependentCascadeModel never propagated awareness

Agents looked for aware neighbors only once they were aware themselves, and they
used the id of a state that no longer exists.
---
 soil/agents/IndependentCascadeModel.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/soil/agents/IndependentCascadeModel.py b/soil/agents/IndependentCascadeModel.py
index 890a54e..e7119e2 100644
--- a/soil/agents/IndependentCascadeModel.py
+++ b/soil/agents/IndependentCascadeModel.py
@@ -1,4 +1,5 @@
 from . import Agent, state, default_state
+from ..time import INFINITY
 
 
 class IndependentCascadeModel(Agent):
@@ -19,12 +20,16 @@ class IndependentCascadeModel(Agent):
         if self.prob(self.model.innovation_prob):
             self.sentimentCorrelation = 1
             self.time_awareness = self.model.now # To know when they have been infected
-            return self.imitate
+            return self.aware
 
-    @state
-    def imitate(self):
-        aware_neighbors = self.get_neighbors(state_id=1, time_awareness=self.now-1)
+        # Imitation effects
+        aware_neighbors = self.get_neighbors(state_id=self.aware.id, time_awareness=self.now-1)
 
         if self.prob(self.model.imitation_prob * len(aware_neighbors)):
             self.sentimentCorrelation = 1
-            return self.outside
\ No newline at end of file
+            self.time_awareness = self.model.now
+            return self.aware
+
+    @state
+    def aware(self):
+        return INFINITY
-- 
2.43.0


From 80032c2b90134225b2bed75368479c08e0d72f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:35 +0000
Subject: [PATCH 46/92] fix: times are always exported as floats, even when a
 model does not take any steps

---
 soil/datacollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/datacollection.py b/soil/datacollection.py
index d1d8dd9..5a95139 100644
--- a/soil/datacollection.py
+++ b/soil/datacollection.py
@@ -9,7 +9,7 @@ class SoilCollector(MDC):
         if 'agent_count' not in model_reporters:
             model_reporters['agent_count'] = lambda m: m.schedule.get_agent_count()
         if 'time' not in model_reporters:
-            model_reporters['time'] = lambda m: m.schedule.time
+            model_reporters['time'] = lambda m: float(m.schedule.time)
         # if 'state_id' not in agent_reporters:
         #     agent_reporters['state_id'] = lambda agent: getattr(agent, 'state_id', None)
 
-- 
2.43.0


From 2015ae7696fbbc94ce368f9a5e146263856aca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:07 +0000
Subject: [PATCH 47/92] fix: the summary exporter does not fail on reporters of
 different types

---
 soil/exporters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index ad44119..ed17b3b 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -237,7 +237,7 @@ class summary(Exporter):
             description = indent(str(df.describe()), tabs)
             last_line = indent(str(df.iloc[-1:]), tabs)
             # value_counts = indent(str(df.value_counts()), tabs)
-            value_counts = indent(str(df.apply(lambda x: x.value_counts()).T.stack()), tabs)
+            value_counts = indent("\n".join(str(df[col].value_counts()) for col in df.columns), tabs)
 
             msg += dedent("""
             Dataframe {t}:
-- 
2.43.0


From 0c04b0bd02040fd1f0bbf8f37b31ff451d5b714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:40 +0000
Subject: [PATCH 48/92] fix: the graphdrawing exporter writes its drawings
 instead of failing

---
 soil/exporters.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index ed17b3b..c07326e 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -211,6 +211,10 @@ class dummy(Exporter):
 
 class graphdrawing(Exporter):
     def iteration_end(self, env, *args, **kwargs):
+        if not self.dump:
+            logger.info("Not drawing the graph (NO_DUMP mode)")
+            return
+
         import matplotlib.pyplot as plt
         # Outside effects
         f = plt.figure()
@@ -221,8 +225,9 @@ class graphdrawing(Exporter):
             pos=nx.spring_layout(env.G, scale=100),
             ax=f.add_subplot(111),
         )
-        with open("graph-{}.png".format(env.id)) as f:
-            f.savefig(f)
+        with self.output("graph-{}.png".format(env.id), mode="wb") as out:
+            f.savefig(out)
+        plt.close(f)
 
 
 class summary(Exporter):
-- 
2.43.0


From e7efe79ccd8b83f91908f28134e41558893a2183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:47 +0000
Subject: [PATCH 49/92] fix: using a module once does not turn it into a known
 module

---
 soil/serialization.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index b5be476..11f6d13 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -156,9 +156,11 @@ def with_source(file=None):
 
 def get_module(modname):
     """Get a module from the list of known modules"""
-    if modname not in KNOWN_MODULES or KNOWN_MODULES[modname] is None:
-        module = importlib.import_module(modname)
-        KNOWN_MODULES[modname] = module
+    if modname not in KNOWN_MODULES:
+        # Using a module once should not make its classes available by their short name
+        return importlib.import_module(modname)
+    if KNOWN_MODULES[modname] is None:
+        KNOWN_MODULES[modname] = importlib.import_module(modname)
     return KNOWN_MODULES[modname]
 
 
-- 
2.43.0


From a736f9f8adc0cdf705712046577345dd95384b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:19 +0000
Subject: [PATCH 50/92] fix: classes in the source file of a simulation take
 precedence over others with the same name

---
 soil/serialization.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 11f6d13..071f257 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -164,6 +164,12 @@ def get_module(modname):
     return KNOWN_MODULES[modname]
 
 
+def _search_order(known_modules):
+    """Modules in the order in which they should be searched: source files take precedence."""
+    sources = [mod for mod in known_modules if mod in MODULE_FILES.values()]
+    return sources[::-1] + [mod for mod in known_modules if mod not in sources]
+
+
 def name(value, known_modules=KNOWN_MODULES):
     """Return a name that can be imported, to serialize/deserialize an object"""
     if value is None:
@@ -176,7 +182,7 @@ def name(value, known_modules=KNOWN_MODULES):
     modname = value.__module__
     if modname == "__main__":
         return tname
-    for kmod in known_modules:
+    for kmod in _search_order(known_modules):
         module = get_module(kmod)
         if hasattr(module, tname):
             if getattr(module, tname) is value:
@@ -251,7 +257,7 @@ def deserializer(type_, known_modules=KNOWN_MODULES):
     # Otherwise, see if we can find the module and the class
     options = []
 
-    for mod in known_modules:
+    for mod in _search_order(known_modules):
         if mod:
             options.append((mod, type_))
 
-- 
2.43.0


From e42419f19aef94e70a4465927e31f7d76b18fb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:54 +0000
Subject: [PATCH 51/92] fix: classes named like a built-in are always
 serialized with their module

---
 soil/serialization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/serialization.py b/soil/serialization.py
index 071f257..090bfc8 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -183,6 +183,8 @@ def name(value, known_modules=KNOWN_MODULES):
     if modname == "__main__":
         return tname
     for kmod in _search_order(known_modules):
+        if hasattr(builtins(), tname):  # The short name would be that of the built-in
+            break
         module = get_module(kmod)
         if hasattr(module, tname):
             if getattr(module, tname) is value:
-- 
2.43.0


From 0d049887eb142bfea04d286878b39c4b72cc9db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:54 +0000
Subject: [PATCH 52/92] fix: expanding a template does not alter its sampler

---
 soil/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 090bfc8..122681a 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -65,7 +65,7 @@ def expand_template(config):
 
 
 def params_for_template(config):
-    sampler_config = config.get("sampler", {"N": 100})
+    sampler_config = dict(config.get("sampler", {"N": 100}))
     sampler = sampler_config.pop("method", "SALib.sample.morris.sample")
     sampler = deserializer(sampler)
     bounds = config["vars"]["bounds"]
-- 
2.43.0


From 943b425d89fdb7c84dfe53d7065e9f4b4f01b918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:54 +0000
Subject: [PATCH 53/92] fix: an empty topology keeps its type and attributes

---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 7b3d215..be68259 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -278,7 +278,7 @@ class NetworkEnvironment(BaseEnvironment):
         self.topology = topology
         self.network_generator = network_generator
         self.network_params = network_params
-        if topology or network_params or network_generator:
+        if isinstance(topology, nx.Graph) or topology or network_params or network_generator:
             self.create_network(topology, generator=network_generator, **network_params)
         else:
             self.G = nx.Graph()
-- 
2.43.0


From 07bc8ef893ad780b4757fb522a19a5adbefff63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:54 +0000
Subject: [PATCH 54/92] fix: network generators can be given an explicit seed

---
 soil/environment.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index be68259..061d677 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -314,13 +314,15 @@ class NetworkEnvironment(BaseEnvironment):
         elif path is not None:
             topology = network.from_topology(path, dir_path=self.dir_path)
         elif generator is not None:
-            params = dict(generator=generator,
-                                           dir_path=self.dir_path,
-                                           seed=self.random,
-                                           **network_params)
+            params = {"generator": generator,
+                      "dir_path": self.dir_path,
+                      "seed": self.random,
+                      **network_params}
             try:
                 topology = network.from_params(**params)
             except TypeError:
+                if "seed" in network_params:
+                    raise
                 del params["seed"]
                 topology = network.from_params(**params)
         else:
-- 
2.43.0


From 115c9894cc76f7f3515901bfdc3842f666692455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:54 +0000
Subject: [PATCH 55/92] fix: the most derived class takes precedence in the
 defaults of agents with several base classes

---
 soil/agents/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 2b1a0af..ca5a2e7 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -58,11 +58,6 @@ class MetaAgent(ABCMeta):
     def __new__(mcls, name, bases, namespace):
         defaults = {}
 
-        # Re-use defaults from inherited classes
-        for i in bases:
-            if isinstance(i, MetaAgent):
-                defaults.update(i._defaults)
-
         new_nmspc = {
             "_defaults": defaults,
         }
@@ -99,7 +94,14 @@ class MetaAgent(ABCMeta):
 
 
         # Add attributes for their use in the decorated functions
-        return super().__new__(mcls, name, bases, new_nmspc)
+        cls = super().__new__(mcls, name, bases, new_nmspc)
+
+        # Re-use defaults from inherited classes. The most derived class takes precedence
+        cls._own_defaults = defaults
+        cls._defaults = {}
+        for i in reversed(cls.__mro__):
+            cls._defaults.update(i.__dict__.get("_own_defaults", {}))
+        return cls
 
 
 class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
-- 
2.43.0


From c2e7f322f1c196c072f2d4ef707cb841df35c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:54 +0000
Subject: [PATCH 56/92] fix: the values of an agent can be listed like those of
 a dictionary

---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index ca5a2e7..6067559 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -202,7 +202,7 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
         return sum(1 for n in self.keys())
 
     def __iter__(self):
-        return self.items()
+        return self.keys()
 
     def keys(self):
         return (k for k in self.__dict__ if k[0] != "_" and k not in IGNORED_FIELDS)
-- 
2.43.0


From 611a63800039bc78bba5c0aaed642bae86e75c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:22 +0000
Subject: [PATCH 57/92] fix: the limits in the command line are part of the
 converted configuration

---
 soil/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index c13d51a..8d5a4cf 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -245,15 +245,14 @@ def main(
                     except AttributeError:
                         target[tail] = v
 
+            if args.max_time != "-1":
+                sim.max_time = float(args.max_time)
+            if args.max_steps != "-1":
+                sim.max_steps = float(args.max_steps)
             if args.only_convert:
                 print(sim.to_yaml())
                 continue
-            limits = {}
-            if args.max_time != "-1":
-                limits["max_time"] = float(args.max_time)
-            if args.max_steps != "-1":
-                limits["max_steps"] = float(args.max_steps)
-            res.append(sim.run(**limits))
+            res.append(sim.run())
 
     except Exception as ex:
         if args.pdb:
-- 
2.43.0


From 50e14e9e3a4f8a2f82bc36ae5ed5c738ccdf4daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:56 +0000
Subject: [PATCH 58/92] fix: convert several simulations to separate YAML
 documents

---
 soil/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soil/__init__.py b/soil/__init__.py
index 8d5a4cf..b680fdf 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -250,6 +250,7 @@ def main(
             if args.max_steps != "-1":
                 sim.max_steps = float(args.max_steps)
             if args.only_convert:
+                print("---")
                 print(sim.to_yaml())
                 continue
             res.append(sim.run())
-- 
2.43.0


From 7e73373257dfb37c0c2c6130f47f67868968450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:35 +0000
Subject: [PATCH 59/92] fix: run_from_file called a method that no longer
 exists

---
 soil/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 40c0673..c9d5035 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -375,7 +375,7 @@ def from_py(pyfile):
 def run_from_file(*files, **kwargs):
     for sim in iter_from_file(*files):
         logger.info(f"Using config(s): {sim.name}")
-        sim.run_simulation(**kwargs)
+        sim.run(**kwargs)
 
 def run(env, iterations=1, num_processes=1, dump=False, name="test", **kwargs):
     return Simulation(model=env, iterations=iterations, name=name, dump=dump, num_processes=num_processes, **kwargs).run()
\ No newline at end of file
-- 
2.43.0


From 88b0b3480df5aa1ff9953eebe08764394639583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:48 +0000
Subject: [PATCH 60/92] fix: a ValueError in a Python file is not a reason to
 load it as a configuration

---
 soil/simulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index c9d5035..9797372 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -293,11 +293,15 @@ class Simulation:
         return yaml.dump(self.to_dict())
 
 
+class NotPythonError(ValueError):
+    """The file is not a Python module"""
+
+
 def iter_from_file(*files, **kwargs):
     for f in files:
         try:
             yield from iter_from_py(f, **kwargs)
-        except ValueError as ex:
+        except NotPythonError as ex:
             yield from iter_from_config(f, **kwargs)
 
 
@@ -334,7 +338,7 @@ def iter_from_py(pyfile, module_name='imported_file', **kwargs):
         spec = importlib.util.spec_from_file_location(module_name, pyfile)
         folder = os.path.dirname(pyfile)
         if not spec:
-            raise ValueError(f"{pyfile} does not seem to be a Python module")
+            raise NotPythonError(f"{pyfile} does not seem to be a Python module")
         if folder not in sys.path:
             added = True
             sys.path.append(folder)
-- 
2.43.0


From d0eddfaad7f9196ff2b329e4b852816fe56e06e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:02 +0000
Subject: [PATCH 61/92] fix: undefined name when ignoring arguments in
 from_dict

---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 6067559..78a6b74 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -179,7 +179,7 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
                 ignored[k] = v
         if ignored and warn_extra:
             utils.logger.info(
-                f"Ignoring the following arguments for agent class { agent_class.__name__ }: { ignored }"
+                f"Ignoring the following arguments for agent class { cls.__name__ }: { ignored }"
             )
         return cls(model=model, **args)
 
-- 
2.43.0


From 9c7b79d8cb7f16f7cb79228b91b42994a09a6035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:32 +0000
Subject: [PATCH 62/92] fix: verbose models without model reporters

---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 061d677..5ffea96 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -201,7 +201,7 @@ class BaseEnvironment(Model):
 
         if self.logger.isEnabledFor(logging.DEBUG):
             msg = "Model data:\n"
-            max_width = max(len(k) for k in self.datacollector.model_vars.keys())
+            max_width = max((len(k) for k in self.datacollector.model_vars.keys()), default=0)
             for (k, v) in self.datacollector.model_vars.items():
                 msg += f"\t{k:<{max_width}}: {str(v[-1]):>6}\n"
             self.logger.debug(f"--- Steps: {self.schedule.steps:^5} - Time: {self.now:^5} --- " + msg)
-- 
2.43.0


From 9530f88e0c1afd8c685360a38c9e095595578130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:19 +0000
Subject: [PATCH 63/92] fix: export data collectors without model reporters

---
 soil/exporters.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index c07326e..1d3568f 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -95,9 +95,12 @@ class Exporter:
 
 def get_dc_dfs(dc, **kwargs):
     dfs = {}
-    dfe = dc.get_model_vars_dataframe()
-    dfe.index.rename("step", inplace=True)
-    dfs["env"] = dfe
+    try:
+        dfe = dc.get_model_vars_dataframe()
+        dfe.index.rename("step", inplace=True)
+        dfs["env"] = dfe
+    except UserWarning:
+        pass
     try:
         dfa = dc.get_agent_vars_dataframe() 
         dfa.index.rename(["step", "agent_id"], inplace=True)
-- 
2.43.0


From 367f56719438092e215ba6456cd0c0bd059d784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:08 +0000
Subject: [PATCH 64/92] fix: run mesa models whose constructor does not take
 the arguments of soil environments

---
 soil/simulation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 9797372..1f57712 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -228,7 +228,7 @@ class Simulation:
         model_reporters = dict(self.model_reporters)
         model_reporters.update(params.pop("model_reporters", {}))
 
-        return self.model(
+        env_params = dict(
             id=iteration_id,
             seed=f"{self.seed}_iteration_{iteration_id}",
             dir_path=self.dir_path,
@@ -236,8 +236,16 @@ class Simulation:
             agent_reporters=agent_reporters,
             model_reporters=model_reporters,
             tables=self.tables,
-            **params,
         )
+        accepted = inspect.signature(self.model.__init__).parameters
+        if any(p.kind == p.VAR_KEYWORD for p in accepted.values()):
+            return self.model(**env_params, **params)
+
+        # Plain mesa models do not know about the arguments added by soil, but
+        # mesa sets the random generator when the object is created
+        env = self.model.__new__(self.model, **env_params, **params)
+        env.__init__(**{k: v for (k, v) in env_params.items() if k in accepted}, **params)
+        return env
 
     def _run_model(self, iteration_id, **params):
         """
-- 
2.43.0


From 606f2636e57f980a8fad4a6273c47971bc460fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:33 +0000
Subject: [PATCH 65/92] fix: export the results of plain mesa models

---
 soil/exporters.py  | 2 ++
 soil/simulation.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/soil/exporters.py b/soil/exporters.py
index 1d3568f..3f7fc8b 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -87,6 +87,8 @@ class Exporter:
         return open_or_reuse(f, mode=mode, backup=self.simulation.backup, **kwargs)
 
     def get_dfs(self, env, **kwargs):
+        if not hasattr(env, "datacollector"):  # Plain mesa models
+            return
         yield from get_dc_dfs(env.datacollector,
                               simulation_id=self.simulation.id,
                               iteration_id=env.id,
diff --git a/soil/simulation.py b/soil/simulation.py
index 1f57712..1b732ae 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -254,6 +254,8 @@ class Simulation:
         """
         # Set-up iteration environment and graph
         model = self._get_env(iteration_id, params)
+        if not hasattr(model, "id"):  # Plain mesa models
+            model.id = str(iteration_id)
         with utils.timer("Simulation {} iteration {}".format(self.name, iteration_id)):
 
             max_time = self.max_time 
-- 
2.43.0


From 11eb3fa29f2d53b66610a9e438af090f238d2967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:01 +0000
Subject: [PATCH 66/92] fix: soil agents in plain mesa models

---
 soil/agents/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 78a6b74..881d90c 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -126,7 +126,7 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
 
         self.alive = True
 
-        logger = model.logger.getChild(self.name)
+        logger = getattr(model, "logger", utils.logger).getChild(self.name)
         self.logger = logging.LoggerAdapter(logger, {"agent_name": self.name})
 
         if hasattr(self, "level"):
@@ -228,8 +228,8 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
         try:
             return self.model.now
         except AttributeError:
-            # No environment
-            return None
+            # No environment, or a plain mesa model
+            return getattr(getattr(self.model, "schedule", None), "time", None)
 
     def die(self, msg=None):
         if msg:
-- 
2.43.0


From 6ab17730736f45a50fc907b09884e82129da28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:35 +0000
Subject: [PATCH 67/92] fix: export models that did not collect any agent data

---
 soil/exporters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index 3f7fc8b..d5d8d74 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -105,8 +105,9 @@ def get_dc_dfs(dc, **kwargs):
         pass
     try:
         dfa = dc.get_agent_vars_dataframe() 
-        dfa.index.rename(["step", "agent_id"], inplace=True)
-        dfs["agents"] = dfa
+        if dfa.index.nlevels > 1:  # There is no such index without any records
+            dfa.index.rename(["step", "agent_id"], inplace=True)
+            dfs["agents"] = dfa
     except UserWarning:
         pass
     for table_name in dc.tables:
-- 
2.43.0


From e9b52f567fdf3847610b9c2de46c6c1ed5f50117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:46 +0000
Subject: [PATCH 68/92] fix: fixed-step wrapper never returns without events

---
 soil/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/time.py b/soil/time.py
index 09701a5..7d5ecc6 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -231,6 +231,8 @@ class Lockstepper:
         res = None
         while self.scheduler.time < end_time:
             res = self.scheduler.step()
+            if not getattr(self.scheduler, "_queue", True):
+                break  # There are no events left
         self.time = end_time
         self.steps += 1
         return res
-- 
2.43.0


From 2b692dd9e14948a9bb845fb3191a0a226b8e5b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 69/92] fix: scheduling does not compare the state of the
 agents

Checking whether an agent had been removed looked for it among the scheduled agents, which compares
every attribute of the agent in each activation.
---
 soil/time.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 7d5ecc6..85238c3 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -38,6 +38,19 @@ class DiscreteActivation(BaseScheduler):
         super().__init__(*args, **kwargs)
         if hasattr(self.model, 'default_interval'):
             self.default_interval = self.model.default_interval
+        self._active = set()
+
+    def add(self, agent: MesaAgent):
+        super().add(agent)
+        self._active.add(id(agent))
+
+    def remove(self, agent: MesaAgent):
+        super().remove(agent)
+        self._active.discard(id(agent))
+
+    def _is_active(self, agent):
+        # Looking for the agent in self._agents would compare all of its attributes
+        return id(agent) in self._active
 
 
 class PQueueActivation(DiscreteActivation):
@@ -99,7 +112,7 @@ class PQueueActivation(DiscreteActivation):
             # own entry needs to be removed before that
             heappop(self._queue)
 
-            if agent not in self._agents:
+            if not self._is_active(agent):
                 continue
 
             try:
@@ -108,7 +121,7 @@ class PQueueActivation(DiscreteActivation):
             except DeadAgent:
                 continue
 
-            if when == INFINITY or agent not in self._agents:
+            if when == INFINITY or not self._is_active(agent):
                 continue
 
             self._schedule(agent, when)
@@ -174,7 +187,7 @@ class TimedActivation(DiscreteActivation):
         if self._shuffle:
             self.model.random.shuffle(bucket)
         for agent in bucket:
-            if agent not in self._agents:
+            if not self._is_active(agent):
                 continue
 
             try:
@@ -183,7 +196,7 @@ class TimedActivation(DiscreteActivation):
             except DeadAgent:
                 continue
 
-            if when != INFINITY and agent in self._agents:
+            if when != INFINITY and self._is_active(agent):
                 self._schedule(agent, when, replace=True)
 
         self.steps += 1
-- 
2.43.0


From 0dcf6de1e8d7ea6acbda456823778581945c58f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:36 +0000
Subject: [PATCH 70/92] fix: easy returns the results of the simulation

---
 soil/__init__.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index b680fdf..2aedde1 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -6,7 +6,6 @@ import sys
 import os
 import logging
 import traceback
-from contextlib import contextmanager
 
 from .version import __version__
 
@@ -271,7 +270,6 @@ def main(
     return res
 
 
-@contextmanager
 def easy(cfg, pdb=False, debug=False, **kwargs):
     try:
         return main(cfg, debug=debug, pdb=pdb, **kwargs)[0]
-- 
2.43.0


From 627117f3b5272478359ab08d00d8b7194d4b10ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:11 +0000
Subject: [PATCH 71/92] fix: names of classes defined in the main script

---
 soil/serialization.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 122681a..163201a 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -180,16 +180,17 @@ def name(value, known_modules=KNOWN_MODULES):
     if getattr(builtins(), tname, None) is value:
         return tname
     modname = value.__module__
-    if modname == "__main__":
-        return tname
+    shadowed = hasattr(builtins(), tname)  # The short name would be that of the built-in
     for kmod in _search_order(known_modules):
-        if hasattr(builtins(), tname):  # The short name would be that of the built-in
+        if shadowed:
             break
         module = get_module(kmod)
         if hasattr(module, tname):
             if getattr(module, tname) is value:
                 return tname
-            break
+            shadowed = True
+    if modname == "__main__" and not shadowed:
+        return tname
     return "{}.{}".format(modname, tname)
 
 
@@ -266,6 +267,8 @@ def deserializer(type_, known_modules=KNOWN_MODULES):
     if "." in type_:  # Fully qualified module
         module, type_ = type_.rsplit(".", 1)
         options.append((module, type_))
+    else:  # Classes in the main script are referred to by their short name
+        options.append(("__main__", type_))
 
     errors = []
     for modname, tname in options:
-- 
2.43.0


From 8469d731430022cb2d2fc5ce50e76752228d1eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:01 +0000
Subject: [PATCH 72/92] fix: plotting by steps

---
 soil/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/analysis.py b/soil/analysis.py
index 28d5295..2d2d10f 100644
--- a/soil/analysis.py
+++ b/soil/analysis.py
@@ -7,7 +7,7 @@ from collections import namedtuple
 def plot(env, agent_df=None, model_df=None, steps=False, ignore=["agent_count", ]):
     """Plot the model dataframe and agent dataframe together."""
     if model_df is None:
-        model_df = env.model_df()
+        model_df = env.model_df(steps=steps)
     ignore = list(ignore)
     if not steps:
         ignore.append("step")
@@ -17,7 +17,7 @@ def plot(env, agent_df=None, model_df=None, steps=False, ignore=["agent_count",
     ax = model_df.drop(ignore, axis='columns').plot();
     if agent_df is None:
         try:
-            agent_df = env.agent_df()
+            agent_df = env.agent_df(steps=steps)
         except UserWarning:
             print("No agent dataframe provided and no agent reporters found. Skipping agent plot.", file=sys.stderr)
             return
-- 
2.43.0


From 61782fc9e101a5a35df880043554f7042ffeb4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:10 +0000
Subject: [PATCH 73/92] fix: agent data of models that never had agents

---
 soil/environment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/environment.py b/soil/environment.py
index 5ffea96..481f5ce 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -127,6 +127,8 @@ class BaseEnvironment(Model):
     
     def agent_df(self, steps=False):
         df = self.datacollector.get_agent_vars_dataframe()
+        if df.index.nlevels < 2:  # There is no such index without any records
+            df = df.iloc[:0].set_index(["Step", "AgentID"])
         if steps:
             df.index.rename(["step", "agent_id"], inplace=True)
             return df
-- 
2.43.0


From 93572907599d4213e0fcd8dcc0580ec8f95fb62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:03 +0000
Subject: [PATCH 74/92] fix: skip attributes in the text of an agent

---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 881d90c..555adff 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -283,7 +283,7 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
         return self.to_str()
 
     def to_str(self, keys=None, skip=None, pretty=False):
-        content = dict(self.items(keys=keys))
+        content = dict(self.items(keys=keys, skip=skip))
         if pretty and content:
             d = content
             content = "\n"
-- 
2.43.0


From f080f62adbfd1da78761c46ea2f884b6a9646fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:38 +0000
Subject: [PATCH 75/92] fix: reserved nodes are not free while populating the
 network

populate_network marks the nodes that it is about to fill with None. An agent
created in the initialisation of another one took such a node, and then lost it.
---
 soil/agents/network_agents.py | 2 +-
 soil/environment.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index b9cb104..5f723d3 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -10,7 +10,7 @@ class NetworkAgent(BaseAgent):
         if node_id is None:
             nodes = self.random.sample(list(self.G.nodes), k=len(self.G))
             for n_id in nodes:
-                if "agent" not in self.G.nodes[n_id] or self.G.nodes[n_id]["agent"] is None:
+                if "agent" not in self.G.nodes[n_id]:  # It may be None, if the node is reserved
                     node_id = n_id
                     break
             else:
diff --git a/soil/environment.py b/soil/environment.py
index 481f5ce..e151e03 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -341,7 +341,7 @@ class NetworkEnvironment(BaseEnvironment):
         for (id, data) in self.G.nodes(data=True):
             if "agent" in data:
                 agent = data["agent"]
-                if getattr(agent, "alive", True):
+                if agent is not None and getattr(agent, "alive", True):
                     yield agent
 
     def add_node(self, agent_class, unique_id=None, node_id=None, **kwargs):
-- 
2.43.0


From 226e8abb201ade553e9ecb5695e9239c6b76e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:49 +0000
Subject: [PATCH 76/92] fix: use each requested exporter once

An exporter requested both by name and with its own flag (e.g., -e csv --csv)
was run twice, so its rows were repeated. The list given by the caller of main
is not modified, either.
---
 soil/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index 2aedde1..149492e 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -164,16 +164,17 @@ def main(
     if args.version:
         return
 
-    exporters = exporters or [
+    exporters = list(exporters or [
         "default",
-    ]
-    for exp in args.exporter:
-        if exp not in exporters:
-            exporters.append(exp)
+    ])
+    requested = list(args.exporter)
     if args.csv:
-        exporters.append("csv")
+        requested.append("csv")
     if args.graph:
-        exporters.append("gexf")
+        requested.append("gexf")
+    for exp in requested:
+        if exp not in exporters:
+            exporters.append(exp)
 
     if os.getcwd() not in sys.path:
         sys.path.append(os.getcwd())
-- 
2.43.0


From e51bedd5e11fce217ae2d029fc07d6da87a680bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:49 +0000
Subject: [PATCH 77/92] fix: infinite values can be deserialized

---
 soil/serialization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/serialization.py b/soil/serialization.py
index 163201a..6e77083 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -249,6 +249,8 @@ def deserializer(type_, known_modules=KNOWN_MODULES):
         return lambda x=None: None
     if hasattr(builtins(), type_):  # Check if it's a builtin type
         cls = getattr(builtins(), type_)
+        if cls is float:  # Infinity and NaN are not literals
+            return lambda x=None: float(x) if x is not None else float()
         return lambda x=None: ast.literal_eval(x) if x is not None else cls()
     match = IS_CLASS.match(type_)
     if match:
-- 
2.43.0


From 9e2ea255cdd61bef291136ea3a2ff3f7672fb41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:35 +0000
Subject: [PATCH 78/92] fix: states of classes with several base classes

With several base classes, the states and the default state of the last one
replaced those of the others, even if it only inherited them. They now follow
the order of resolution of any other attribute.
---
 soil/agents/fsm.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index ad84964..03fff81 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -78,36 +78,37 @@ def default_state(func):
 
 class MetaFSM(MetaAgent):
     def __new__(mcls, name, bases, namespace):
-        states = {}
-        # Re-use states from inherited classes
-        default_state = None
-        for i in bases:
-            if isinstance(i, MetaFSM):
-                states.update(i._states)
-                if i._state is not None:
-                    default_state = i._state
+        own_states = {}
+        own_default = None
 
-        # Add new states
         for attr, func in namespace.items():
             if isinstance(func, State):
                 if func.default:
-                    default_state = func
-                states[func.name] = func
-
-        # The inherited default state may have been redefined
-        if default_state is not None:
-            default_state = states[default_state.name]
+                    own_default = func.name
+                own_states[func.name] = func
 
         namespace.update(
             {
-                "_state": default_state,
-                "_states": states,
+                "_own_states": own_states,
+                "_own_default": own_default,
             }
         )
 
         cls = super(MetaFSM, mcls).__new__(
             mcls=mcls, name=name, bases=bases, namespace=namespace
         )
+
+        # Re-use states from inherited classes. The most derived class takes precedence
+        states = {}
+        default_state = None
+        for i in reversed(cls.__mro__):
+            states.update(i.__dict__.get("_own_states", {}))
+            default_state = i.__dict__.get("_own_default", None) or default_state
+
+        cls._states = states
+        # The inherited default state may have been redefined
+        cls._state = states[default_state] if default_state else None
+
         for (k, v) in states.items():
             setattr(cls, k, v)
         return cls
-- 
2.43.0


From a592caa2e78ee3cd715b737b7819bb00ec31d4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:25 +0000
Subject: [PATCH 79/92] fix: debugger commands know the model and agent at
 hand, and only those

---
 soil/debugging.py | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/soil/debugging.py b/soil/debugging.py
index 97dc8cc..83fe4f4 100644
--- a/soil/debugging.py
+++ b/soil/debugging.py
@@ -16,21 +16,9 @@ def wrapcmd(func):
     def wrapper(self, arg: str, temporary=False):
         sys.settrace(self.trace_dispatch)
 
-        lastself = self
-        known = globals()
-        known.update(self.curframe.f_globals)
-        known.update(self.curframe.f_locals)
+        known = self._scope()
         known["attrs"] = arg.strip().split()
-
-        this = known.get("self", None)
-
-        if isinstance(this, Model):
-            known["model"] = this
-        elif isinstance(this, Agent):
-            known["agent"] = this
-            known["model"] = this.model
-
-        known["self"] = lastself
+        known["self"] = self
         return exec(func.__code__, known, known)
 
     return wrapper
@@ -47,6 +35,25 @@ class Debug(pdb.Pdb):
         super(Debug, self).__init__(*args, skip=skip, **kwargs)
         self.prompt = "[soil-pdb] "
 
+    def _scope(self):
+        """Names known to the commands, given the place where the debugger has stopped."""
+        known = dict(globals())
+        known.update(self.curframe.f_globals)
+        known.update(self.curframe.f_locals)
+
+        this = known.get("self", None)
+
+        if isinstance(this, Model):
+            known["model"] = this
+        elif isinstance(this, Agent):
+            known["agent"] = this
+            known["model"] = this.model
+
+        for (name, kind) in (("model", Model), ("agent", Agent)):
+            if not isinstance(known.get(name), kind):
+                known[name] = None
+        return known
+
     @staticmethod
     def _soil_agents(model, attrs=None, pretty=True, **kwargs):
         for agent in model.get_agents(**kwargs):
@@ -95,10 +102,8 @@ class Debug(pdb.Pdb):
         Break before the next step.
         """
         try:
-            known = globals()
-            known.update(self.curframe.f_globals)
-            known.update(self.curframe.f_locals)
-            func = getattr(known["model"], "step")
+            model = self._scope()["model"]
+            func = getattr(model, "step")
         except AttributeError as ex:
             self.error(f"The model does not have a step function: {ex}")
             return
@@ -211,7 +216,7 @@ class Debug(pdb.Pdb):
         """
         Break before a specified state is stepped into, for the current agent
         """
-        agent = self.curframe.f_locals.get("self")
+        agent = self._scope()["agent"]
         if not agent:
             self.error("No current agent.")
             self.error("Try this again when the debugger is stopped inside an agent")
-- 
2.43.0


From 7d62f5b7f6d3cc0af5bd17acd79cd209df8def68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:25 +0000
Subject: [PATCH 80/92] fix: soil commands can be used in post-mortem debugging

---
 soil/debugging.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/soil/debugging.py b/soil/debugging.py
index 83fe4f4..8fa14d9 100644
--- a/soil/debugging.py
+++ b/soil/debugging.py
@@ -14,8 +14,6 @@ from mesa import Model, Agent
 def wrapcmd(func):
     @wraps(func)
     def wrapper(self, arg: str, temporary=False):
-        sys.settrace(self.trace_dispatch)
-
         known = self._scope()
         known["attrs"] = arg.strip().split()
         known["self"] = self
-- 
2.43.0


From 58ba2ef7c986d93a23ddc3ae57d9fc9948565b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:26 +0000
Subject: [PATCH 81/92] fix: the debugger can break at states

---
 soil/debugging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soil/debugging.py b/soil/debugging.py
index 8fa14d9..13be8f0 100644
--- a/soil/debugging.py
+++ b/soil/debugging.py
@@ -8,6 +8,7 @@ from textwrap import indent
 from functools import wraps
 
 from .agents import FSM, MetaFSM
+from .agents.fsm import State
 from mesa import Model, Agent
 
 
@@ -157,7 +158,6 @@ class Debug(pdb.Pdb):
             klass = state[:colon].rstrip()
             state = state[colon + 1 :].strip()
 
-            print(klass, state, tokens)
             klass = eval(klass, self.curframe.f_globals, self.curframe_locals)
 
         if klass:
@@ -178,6 +178,8 @@ class Debug(pdb.Pdb):
             except AttributeError:
                 self.error(f"State {state} not found in class {klass}")
                 continue
+            if isinstance(func, State):
+                func = func.f
             if hasattr(func, "__func__"):
                 func = func.__func__
 
-- 
2.43.0


From b1e44a27eccad1f62d536ef801e9aa78f8c43216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:26 +0000
Subject: [PATCH 82/92] fix: the debugger finds the classes of the agents in
 the model

---
 soil/debugging.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/soil/debugging.py b/soil/debugging.py
index 13be8f0..6ac363c 100644
--- a/soil/debugging.py
+++ b/soil/debugging.py
@@ -53,6 +53,18 @@ class Debug(pdb.Pdb):
                 known[name] = None
         return known
 
+    def _fsm_classes(self):
+        """FSM classes known in the current frame, and those of the agents in the model"""
+        candidates = list(self.curframe.f_globals.values())
+        model = self._scope()["model"]
+        if model is not None:
+            candidates.extend(type(agent) for agent in model.schedule.agents)
+        klasses = []
+        for k in candidates:
+            if isinstance(k, type) and issubclass(k, FSM) and k not in klasses:
+                klasses.append(k)
+        return klasses
+
     @staticmethod
     def _soil_agents(model, attrs=None, pretty=True, **kwargs):
         for agent in model.get_agents(**kwargs):
@@ -158,16 +170,13 @@ class Debug(pdb.Pdb):
             klass = state[:colon].rstrip()
             state = state[colon + 1 :].strip()
 
-            klass = eval(klass, self.curframe.f_globals, self.curframe_locals)
+        klasses = self._fsm_classes()
 
         if klass:
-            klasses = [klass]
-        else:
-            klasses = [
-                k
-                for k in self.curframe.f_globals.values()
-                if isinstance(k, type) and issubclass(k, FSM)
-            ]
+            try:
+                klasses = [eval(klass, self.curframe.f_globals, self.curframe_locals)]
+            except NameError:
+                klasses = [k for k in klasses if k.__name__ == klass]
 
         if not klasses:
             self.error("No agent classes found")
-- 
2.43.0


From 2f49aa1ad35e90e79fb66f4c91dbf4b738af920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:26 +0000
Subject: [PATCH 83/92] fix: breakpoints of states and steps stop at the
 beginning

---
 soil/debugging.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/soil/debugging.py b/soil/debugging.py
index 6ac363c..65240a6 100644
--- a/soil/debugging.py
+++ b/soil/debugging.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import dis
 import pdb
 import sys
 import os
@@ -23,6 +24,15 @@ def wrapcmd(func):
     return wrapper
 
 
+def first_line(code):
+    """
+    First line that is executed when a function is called. Otherwise, a function that is being
+    run when its breakpoint is set would take its next line as the first one.
+    """
+    lines = (line for (_, line) in dis.findlinestarts(code) if line and line > code.co_firstlineno)
+    return next(lines, code.co_firstlineno)
+
+
 class Debug(pdb.Pdb):
     def __init__(self, *args, skip_soil=False, **kwargs):
         skip = kwargs.get("skip", [])
@@ -144,6 +154,7 @@ class Debug(pdb.Pdb):
             self.error(err)
         else:
             bp = self.get_breaks(filename, line)[-1]
+            bp.func_first_executable_line = first_line(code)
             self.message("Breakpoint %d at %s:%d" % (bp.number, bp.file, bp.line))
             return self.do_continue("")
     
@@ -217,6 +228,7 @@ class Debug(pdb.Pdb):
                 self.error(err)
             else:
                 bp = self.get_breaks(filename, line)[-1]
+                bp.func_first_executable_line = first_line(code)
                 self.message("Breakpoint %d at %s:%d" % (bp.number, bp.file, bp.line))
 
     do_bs = do_break_state
-- 
2.43.0


From 52509b9a8e57895284848712ddd434ba570f2816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:26 +0000
Subject: [PATCH 84/92] fix: break before the next step, from any place

---
 soil/debugging.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soil/debugging.py b/soil/debugging.py
index 65240a6..d6d7b79 100644
--- a/soil/debugging.py
+++ b/soil/debugging.py
@@ -148,8 +148,7 @@ class Debug(pdb.Pdb):
         if existing:
             self.message("Breakpoint already exists at %s:%d" % (filename, line))
             return
-        cond = f"self.schedule.steps > {model.schedule.steps}"
-        err = self.set_break(filename, line, True, cond, funcname)
+        err = self.set_break(filename, line, True, None, funcname)
         if err:
             self.error(err)
         else:
-- 
2.43.0


From 0d08feab6786f0167959f344b8968bf5752882dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:26 +0000
Subject: [PATCH 85/92] fix: the pdb argument of main is honored

---
 soil/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index 149492e..544702b 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -183,8 +183,9 @@ def main(
     output = args.output
 
     debug = debug or args.debug
+    pdb = pdb or args.pdb
 
-    if args.pdb or debug:
+    if pdb or debug:
         args.synchronous = True
         os.environ["SOIL_POSTMORTEM"] = "true"
 
@@ -256,7 +257,7 @@ def main(
             res.append(sim.run())
 
     except Exception as ex:
-        if args.pdb:
+        if pdb:
             from .debugging import post_mortem
 
             print(traceback.format_exc())
-- 
2.43.0


From 8c95ef7f6f344df35faa9646d71efff58d657229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:52 +0000
Subject: [PATCH 86/92] fix: listing agents in the debugger when there is no
 model at hand

---
 soil/debugging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soil/debugging.py b/soil/debugging.py
index d6d7b79..f140790 100644
--- a/soil/debugging.py
+++ b/soil/debugging.py
@@ -77,6 +77,9 @@ class Debug(pdb.Pdb):
 
     @staticmethod
     def _soil_agents(model, attrs=None, pretty=True, **kwargs):
+        if model is None:
+            print("No model available")
+            return
         for agent in model.get_agents(**kwargs):
             d = agent
             print(" - " + indent(agent.to_str(keys=attrs, pretty=pretty), "  "))
-- 
2.43.0


From 27a4bbab125d5ab5eb00e0f668f74da069925956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:41 +0000
Subject: [PATCH 87/92] fix: set_trace stops in its caller, even if there are
 breakpoints

---
 soil/debugging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soil/debugging.py b/soil/debugging.py
index f140790..c64c1c0 100644
--- a/soil/debugging.py
+++ b/soil/debugging.py
@@ -259,6 +259,7 @@ def set_trace(frame=None, **kwargs):
     if debugger is None:
         debugger = Debug(**kwargs)
     frame = frame or sys._getframe().f_back
+    sys.settrace(None)  # Otherwise, if there are breakpoints, it would stop inside the debugger
     debugger.set_trace(frame)
 
 
-- 
2.43.0


From b80ed44b58dd96e2ffe25bf5a8e281b60c344e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:40 +0000
Subject: [PATCH 88/92] fix: pass every model parameter to the model, whatever
 its name

The parameters shared the keyword arguments of run_parallel and _run_model:
num_processes was dropped, and func, iterable or iteration_id failed.
---
 soil/simulation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 1b732ae..6ee849a 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -199,9 +199,8 @@ class Simulation:
                     func = self._run_model
 
                 for env in tqdm(utils.run_parallel(
-                    func=func,
+                    func=partial(func, params=params),
                     iterable=range(self.iterations),
-                    **params,
                 ), total=self.iterations, leave=False):
                     if env is None and self.dry_run:
                         continue
@@ -247,7 +246,7 @@ class Simulation:
         env.__init__(**{k: v for (k, v) in env_params.items() if k in accepted}, **params)
         return env
 
-    def _run_model(self, iteration_id, **params):
+    def _run_model(self, iteration_id, params):
         """
         Run a single iteration of the simulation
 
-- 
2.43.0


From 15ca08c17c6c4282c1713d941701e8af85a11670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:59 +0000
Subject: [PATCH 89/92] fix: set dictionary parameters whose keys are names of
 methods from the command line

---
 soil/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/soil/__init__.py b/soil/__init__.py
index 544702b..a1b3483 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -237,10 +237,16 @@ def main(
                     target = sim.parameters
                     if head:
                         for part in head[0].split("."):
+                            if isinstance(target, dict):  # Its keys may be the names of methods, too
+                                target = target[part]
+                                continue
                             try:
                                 target = getattr(target, part)
                             except AttributeError:
                                 target = target[part]
+                    if isinstance(target, dict):
+                        target[tail] = v
+                        continue
                     try:
                         setattr(target, tail, v)
                     except AttributeError:
-- 
2.43.0


From d3ad56fd77e90a93caaade2d93d0f6cae23ec227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:59 +0000
Subject: [PATCH 90/92] fix: use the requested level for the messages of
 simulation instances

---
 soil/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soil/__init__.py b/soil/__init__.py
index a1b3483..399909c 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -211,6 +211,7 @@ def main(
             logger.info("Loading simulation instance")
             for (k, v) in opts.items():
                 setattr(sim, k, v)
+            sim.logger.setLevel(level)
             sims = [sim]
         else:
             logger.info("Loading config file: {}".format(args.file))
-- 
2.43.0


From ed49a80dc6e711f1666ccdf32599d22b1e6b7e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:59 +0000
Subject: [PATCH 91/92] fix: do not hide errors raised while writing to an
 exported file

---
 soil/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/soil/utils.py b/soil/utils.py
index 1d82914..f645b72 100644
--- a/soil/utils.py
+++ b/soil/utils.py
@@ -7,7 +7,7 @@ from functools import partial
 from shutil import copyfile, move
 from multiprocessing import Pool, cpu_count
 
-from contextlib import contextmanager
+from contextlib import contextmanager, nullcontext
 
 logger = logging.getLogger("soil")
 logger.setLevel(logging.WARNING)
@@ -84,9 +84,10 @@ def safe_open(path, mode="r", backup=True, **kwargs):
 @contextmanager
 def open_or_reuse(f, *args, **kwargs):
     try:
-        with safe_open(f, *args, **kwargs) as f:
-            yield f
+        opened = safe_open(f, *args, **kwargs)
     except (AttributeError, TypeError) as ex:
+        opened = nullcontext(f)
+    with opened as f:
         yield f
 
 
-- 
2.43.0


From c49d422ec752da7e2e4781dee23e448a24f3a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:15 +0000
Subject: [PATCH 92/92] fix: networks with nodes that name their agent

---
 soil/environment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index e151e03..0ed7dd8 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -375,9 +375,9 @@ class NetworkEnvironment(BaseEnvironment):
         """
         for (id, data) in self.G.nodes(data=True):
             if "agent_id" in data:
-                agent = self.get_agents(data["agent_id"])
+                agent = self.get_agents[data["agent_id"]]
                 self.G.nodes[id]["agent"] = agent
-                assert not getattr(agent, "node_id", None) or agent.node_id == id
+                assert getattr(agent, "node_id", None) in (None, id)
                 agent.node_id = id
         for agent in self.get_agents():
             if hasattr(agent, "node_id"):
-- 
2.43.0

