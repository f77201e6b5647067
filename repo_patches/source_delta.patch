From 4e49c9e8ef5ce1cc2261bdc6626c546e372f73cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 01/59] fix: match link endpoints by the text of their name,
 not by string identity

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index c78e94c..5aa6151 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -985,7 +985,7 @@ class Ecosystem:
         removed = False
 
         for i in range(0, len(self.locations[x].links)):
-            if self.locations[x].links[i].endpoint.name is not endpoint:
+            if self.locations[x].links[i].endpoint.name != endpoint:
                 new_links += [self.locations[x].links[i]]
                 continue
 
@@ -1039,7 +1039,7 @@ class Ecosystem:
         #       )
 
         for i in range(0, len(self.locations[x].closed_links)):
-            if self.locations[x].closed_links[i].endpoint.name is not endpoint:
+            if self.locations[x].closed_links[i].endpoint.name != endpoint:
                 # print("[{}] to [{}] ({})".format(
                 #     startpoint,
                 #     self.locations[x].closed_links[i].endpoint.name,
-- 
2.43.0


From 2957f9e95ddeb58a2cbf6d57b6e3c49d9c6482d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:11 +0000
Subject: [PATCH 02/59] fix: leave every location alone when a change names an
 unknown one

---
 flee/flee.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 5aa6151..d5eadf9 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -959,7 +959,6 @@ class Ecosystem:
 
         if x < 0:
             print("#Warning: location not found in remove_link", file=sys.stderr)
-            return False
 
         return x
 
@@ -982,6 +981,8 @@ class Ecosystem:
         """
         new_links = []
         x = self._convert_location_name_to_index(name=startpoint)
+        if x < 0:
+            return False
         removed = False
 
         for i in range(0, len(self.locations[x].links)):
@@ -1030,6 +1031,8 @@ class Ecosystem:
         """
         new_closed_links = []
         x = self._convert_location_name_to_index(name=startpoint)
+        if x < 0:
+            return False
         reopened = False
         # print("Reopening link from {} to {}, "
         #       "closed link list length = {}.".format(
@@ -1371,7 +1374,10 @@ class Ecosystem:
         Returns:
             None.
         """     
-        self.locations[self._convert_location_name_to_index(location_name)].close_camp(IDP)
+        i = self._convert_location_name_to_index(location_name)
+        if i < 0:
+            return
+        self.locations[i].close_camp(IDP)
         print("Time = {}. Close camp {}, IDP: {}.".format(self.time, location_name, IDP), file=sys.stderr)
 
 
@@ -1389,7 +1395,10 @@ class Ecosystem:
             None.
         """
 
-        l = self.locations[self._convert_location_name_to_index(location_name)]
+        i = self._convert_location_name_to_index(location_name)
+        if i < 0:
+            return
+        l = self.locations[i]
 
         l.town = False
         l.camp = False
@@ -1445,7 +1454,10 @@ class Ecosystem:
         Returns:
             None.
         """
-        self.locations[self._convert_location_name_to_index(location_name)].open_camp(IDP)
+        i = self._convert_location_name_to_index(location_name)
+        if i < 0:
+            return
+        self.locations[i].open_camp(IDP)
         print("Time = {}. Open camp {}, IDP: {}.".format(self.time, location_name, IDP), file=sys.stderr)
 
 
@@ -1464,6 +1476,8 @@ class Ecosystem:
             None.
         """
         id1 = self._convert_location_name_to_index(loc1_name)
+        if id1 < 0:
+            return
         for i in range(0, len(self.locations[id1].links)):
             if self.locations[id1].links[i].endpoint.name == loc2_name:
                 old_val = self.locations[id1].links[i].forced_redirection
-- 
2.43.0


From fde15c5e679df4c241261dc0fd59f58a8d896d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 03/59] fix: close and reopen two-way links in both directions

---
 flee/flee.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index d5eadf9..5c5e0ca 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1089,14 +1089,15 @@ class Ecosystem:
         Returns:
             bool: Description
         """
+        removed = self._remove_link_1way(
+            startpoint=startpoint, endpoint=endpoint, close_only=close_only
+        )
         if twoway:
-            return self._remove_link_1way(
+            removed = self._remove_link_1way(
                 startpoint=endpoint, endpoint=startpoint, close_only=close_only
-            )
+            ) or removed
 
-        return self._remove_link_1way(
-            startpoint=startpoint, endpoint=endpoint, close_only=close_only
-        )
+        return removed
 
 
     @check_args_type
@@ -1114,10 +1115,11 @@ class Ecosystem:
         Returns:
             bool: Description
         """
+        reopened = self._reopen_link_1way(startpoint=startpoint, endpoint=endpoint)
         if twoway:
-            return self._reopen_link_1way(startpoint=endpoint, endpoint=startpoint)
+            reopened = self._reopen_link_1way(startpoint=endpoint, endpoint=startpoint) or reopened
 
-        return self._reopen_link_1way(startpoint=startpoint, endpoint=endpoint)
+        return reopened
 
 
     @check_args_type
-- 
2.43.0


From 63b691dba433b8d8506754c564c423abdac9f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 04/59] fix: close and reopen the incoming links of a location
 whatever its own links are

---
 flee/flee.py | 78 +++++++++++++++++-----------------------------------
 1 file changed, 25 insertions(+), 53 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 5c5e0ca..83bc00a 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1180,63 +1180,35 @@ class Ecosystem:
             if self.locationNames[i] == location_name:
                 changed_anything = True
 
-                link_set = self.locations[i].links
+                change_link = self.close_link
                 if mode == "reopen":
-                    link_set = self.locations[i].closed_links
-
-                j = 0
-                while j < len(link_set):
-                    if Debug:
-                        print(
-                            "starting to {} link "
-                            "[{}] [{}] in direction {}".format(
-                                mode, location_name, link_set[j].endpoint.name, direction
-                            ),
-                            file=sys.stderr,
-                        )
-                    if mode == "close":
-
-                        if dir_mode % 2 == 0:
-                            self.close_link(
-                                startpoint=link_set[j].endpoint.name,
-                                endpoint=self.locationNames[i],
-                                twoway=False,
-                            )
-
-                        if dir_mode > 0:
-                            if self.close_link(
-                                startpoint=self.locationNames[i],
-                                endpoint=link_set[j].endpoint.name,
-                                twoway=False,
-                            ):
-                                # shrink the link list. # This operation
-                                # affects the overall loop, so no major
-                                # operations should take place after this.
-                                link_set = self.locations[i].links
-                        else:
-                            j += 1
+                    change_link = self.reopen_link
 
-                    elif mode == "reopen":
+                for loc in self.locations:
+                    link_set = loc.links
+                    if mode == "reopen":
+                        link_set = loc.closed_links
+                    endpoint_names = [link.endpoint.name for link in link_set]
 
-                        if dir_mode % 2 == 0:
-                            self.reopen_link(
-                                startpoint=link_set[j].endpoint.name,
-                                endpoint=self.locationNames[i],
-                                twoway=False,
+                    # Incoming link(s) of the location.
+                    if dir_mode % 2 == 0 and location_name in endpoint_names:
+                        if Debug:
+                            print(
+                                "starting to {} link "
+                                "[{}] [{}] in direction {}".format(
+                                    mode, location_name, loc.name, direction
+                                ),
+                                file=sys.stderr,
                             )
-
-                        if dir_mode > 0:
-                            if self.reopen_link(
-                                startpoint=self.locationNames[i],
-                                endpoint=link_set[j].endpoint.name,
-                                twoway=False,
-                            ):
-                                # shrink the closed link list. # This operation
-                                # affects the overall loop, so no major
-                                # operations should take place after this.
-                                link_set = self.locations[i].closed_links
-                            else:
-                                j += 1
+                        change_link(startpoint=loc.name, endpoint=location_name, twoway=False)
+
+                # Outgoing links of the location.
+                if dir_mode > 0:
+                    link_set = self.locations[i].links
+                    if mode == "reopen":
+                        link_set = self.locations[i].closed_links
+                    for endpoint_name in {link.endpoint.name: None for link in link_set}:
+                        change_link(startpoint=location_name, endpoint=endpoint_name, twoway=False)
 
         return changed_anything
 
-- 
2.43.0


From 4c7d20b8ddcd9337d2b4afb6e1ff735ab2a89939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:35 +0000
Subject: [PATCH 05/59] fix: let a location change its type to conflict zone

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 83bc00a..d5a55a5 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1390,7 +1390,7 @@ class Ecosystem:
                     l.movechance = SimulationSettings.move_rules["IDPCampMoveChance"]
         elif "conflict" in location_type.lower():
             l.movechance = SimulationSettings.move_rules["ConflictMoveChance"]
-            l.conflict = float(self.attributes.get("conflict_intensity",1.0))
+            l.conflict = float(l.attributes.get("conflict_intensity",1.0))
         elif "forward" in location_type.lower():
             l.movechance = 1.0
             l.forward = True
@@ -1408,7 +1408,7 @@ class Ecosystem:
         else:
             print(
                 "Error in creating Location() object: cannot parse location_type value of"
-                " {} for location object with name {}".format(location_type, name),
+                " {} for location object with name {}".format(location_type, location_name),
                 file=sys.stderr
             )
 
-- 
2.43.0


From 04e2583cd1844b8784e892985fc29b96c04380bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 06/59] fix: a location opened as a regular camp is no IDP camp

---
 flee/flee.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/flee.py b/flee/flee.py
index d5a55a5..8097a58 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -453,6 +453,7 @@ class Location:
         """
         self.movechance = SimulationSettings.move_rules["CampMoveChance"]
         self.camp = True
+        self.idpcamp = False
         self.conflict = -1.0
         self.town = False
         self.forward = False
-- 
2.43.0


From c94a5e4b6586f848e26ee7f5a4d4bb0ce70dc3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 07/59] fix: keep everybody else when clearing locations from
 agents

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 8097a58..612566a 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1814,8 +1814,8 @@ class Ecosystem:
         """
         new_agents = []
         for i in range(0, len(self.agents)):
-            if self.agents[i].location.name not in location_names:
-                new_agents += self.agents[i]  # agent is preserved in ecosystem
+            if self.agents[i].location is None or self.agents[i].location.name not in location_names:
+                new_agents += [self.agents[i]]  # agent is preserved in ecosystem
             else:
                 # agent is removed from the ecosystem and number of agents
                 # drops by one.
-- 
2.43.0


From 7539b9a19a492a1743169ed4658f425bd956c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 08/59] fix: stay when no route could be planned

---
 flee/flee.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flee/flee.py b/flee/flee.py
index 612566a..bbc774c 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -140,6 +140,11 @@ class Person:
             or `None` if the agent's route is empty 
             or the next link is invalid.
         """
+        # No route could be planned, so there is no next step.
+        if not self.route:
+            self.route = []
+            return None
+
         for l in self.location.links:
             # If the name of the destination on the current link is same as the agents current waypoint on the route:
             if l.endpoint.name == self.route[0]:
-- 
2.43.0


From 82174104bd5523b9b02c62966cc536029a12cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:04 +0000
Subject: [PATCH 09/59] fix: read the camps_are_sinks setting under its
 documented name

---
 flee/SimulationSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/SimulationSettings.py b/flee/SimulationSettings.py
index ba12563..2720e4e 100644
--- a/flee/SimulationSettings.py
+++ b/flee/SimulationSettings.py
@@ -143,7 +143,7 @@ class SimulationSettings:
             print("NOTE: conflict_zone_spawning_only is enabled by default, and needs to be disabled when you define flood_zone_spawning_only to be true.", file=sys.stderr)
             sys.exit()
 
-        SimulationSettings.spawn_rules["camps_are_sinks"] = bool(fetchss(dps, "camps_are_sicks", False)) # Camps can deactivate agents.
+        SimulationSettings.spawn_rules["camps_are_sinks"] = bool(fetchss(dps, "camps_are_sinks", False)) # Camps can deactivate agents.
         SimulationSettings.spawn_rules["read_from_agents_csv_file"] = bool(fetchss(dps, "read_from_agents_csv_file", False)) # Load agents from agents.csv file.
 
         SimulationSettings.spawn_rules["sum_from_camps"] = bool(fetchss(dps, "sum_from_camps", True)) #Sum total migrant numbers from camp data numbers, instead of from refugees.csv.
-- 
2.43.0


From 1b7d5f8ec8aa166916c17ea7c5c8bbc1dc5e3826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:13 +0000
Subject: [PATCH 10/59] fix: use the deactivation probability read from file as
 a number

---
 flee/flee.py  | 2 +-
 flee/pflee.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index bbc774c..a82bb66 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1677,7 +1677,7 @@ class Ecosystem:
                     if a.location is not None:
                         if a.location.camp == True:
                             outcome = random.random()
-                            if outcome < a.location.attributes.get("deactivation_probability", 0.0):
+                            if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
                                 a.location = None
 
         self.time += 1
diff --git a/flee/pflee.py b/flee/pflee.py
index 23c1b19..3afe729 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -887,7 +887,7 @@ class Ecosystem(flee.Ecosystem):
                 if a.travelling == False:
                     if a.location.camp == True:
                         outcome = random.random()
-                        if outcome < a.location.attributes.get("deactivation_probability", 0.0):
+                        if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
                             a.location = None
 
         self.time += 1
-- 
2.43.0


From 4e02c225d7a04f2f2fe68bd90dfe6d1cbc0f9c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 11/59] fix: support deactivated agents in parallel runs

---
 flee/pflee.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 3afe729..ddcec32 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import os
+import random
 import sys
 from functools import wraps
 from typing import List, Optional
@@ -687,7 +688,7 @@ class Ecosystem(flee.Ecosystem):
 
         new_agents = []
         for agent in self.agents:
-            if agent.location.name not in location_names:
+            if agent.location is None or agent.location.name not in location_names:
                 new_agents += [agent]
             else:
                 # print("Agent removed: ", agent.location.name)
@@ -852,14 +853,16 @@ class Ecosystem(flee.Ecosystem):
 
         # update agent locations
         for a in self.agents:
-            a.evolve(self, time=self.time)
+            if a.location is not None:
+                a.evolve(self, time=self.time)
 
         # print("NumAgents after evolve:", file=sys.stderr)
         self.updateNumAgents(CountClosed=True, log=False)
 
         for a in self.agents:
-            a.finish_travel(self, time=self.time)
-            a.timesteps_since_departure += 1
+            if a.location is not None:
+                a.finish_travel(self, time=self.time)
+                a.timesteps_since_departure += 1
 
         if SimulationSettings.log_levels["agent"] > 0:
             write_agents_par(rank=self.mpi.rank, agents=self.agents, time=self.time)
@@ -885,10 +888,11 @@ class Ecosystem(flee.Ecosystem):
         if SimulationSettings.spawn_rules["camps_are_sinks"] == True:
             for a in self.agents:
                 if a.travelling == False:
-                    if a.location.camp == True:
-                        outcome = random.random()
-                        if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
-                            a.location = None
+                    if a.location is not None:
+                        if a.location.camp == True:
+                            outcome = random.random()
+                            if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
+                                a.location = None
 
         self.time += 1
 
-- 
2.43.0


From 578636a17cd83c0763dfd9b0e6f459112452a8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 12/59] fix: count IDPs once in parallel runs, not once per
 process

---
 flee/pflee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index ddcec32..ba76c18 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -468,8 +468,8 @@ class Ecosystem(flee.Ecosystem):
             if loc.idpcamp:
                 num_idps += loc.numAgents
 
-        num_idps_all = self.mpi.CalcCommWorldTotalSingle(num_idps)
-        return num_idps_all
+        # loc.numAgents is the total over all processes already.
+        return int(num_idps)
 
 
     @check_args_type
-- 
2.43.0


From 2ec655b929de9ce00bd2ceaaceb714d10f025f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 13/59] fix: count every spawned agent on one process only

---
 flee/pflee.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index ba76c18..c159d2e 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -619,7 +619,6 @@ class Ecosystem(flee.Ecosystem):
         if SimulationSettings.spawn_rules["TakeFromPopulation"]:
             if location.pop > 1: 
                 location.pop -= 1
-                location.numAgentsSpawnedOnRank += 1
                 location.numAgentsSpawned += 1
             else:
                 print(
@@ -630,6 +629,8 @@ class Ecosystem(flee.Ecosystem):
                 assert location.pop > 1
         self.total_agents += 1
         if self.total_agents % self.mpi.size == self.mpi.rank:
+            if SimulationSettings.spawn_rules["TakeFromPopulation"]:
+                location.numAgentsSpawnedOnRank += 1
             self.agents.append(Person(self, location=location, attributes=attributes))
 
 
-- 
2.43.0


From 4e06309637cdb7c28bdca72246eb52f5649026c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:03 +0000
Subject: [PATCH 14/59] fix: include people on closed routes in the parallel
 total

---
 flee/pflee.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index c159d2e..7ac1c73 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -535,24 +535,18 @@ class Ecosystem(flee.Ecosystem):
         """
         mode = self.latency_mode
 
-        total = 0
-
         if mode == "low_latency":
             for loc in self.locations:
                 loc.numAgents = self.mpi.CalcCommWorldTotalSingle(loc.numAgentsOnRank)
-                total += loc.numAgents
                 # print("location:", self.time, loc.name, loc.numAgents, file=sys.stderr)
                 for link in loc.links:
                     link.numAgents = self.mpi.CalcCommWorldTotalSingle(link.numAgentsOnRank)
                     # print(self.time, "link:", loc.name, link.numAgents, file=sys.stderr)
-                    total += link.numAgents
                 if CountClosed:
                     for link in loc.closed_links:
                         link.numAgents = self.mpi.CalcCommWorldTotalSingle(link.numAgentsOnRank)
                         # print(self.time, "link [closed]:", loc.name, link.numAgents,
                         #       file=sys.stderr)
-                        total += link.numAgents
-            self.total_agents = total
         elif mode == "high_latency":
             buf_len = 0
 
@@ -590,7 +584,8 @@ class Ecosystem(flee.Ecosystem):
                         link.numAgents = new_buffer[index]
                         index += 1
 
-            self.total_agents = np.sum(new_buffer)
+        # People on routes that closed behind them are in no location's link list.
+        self.total_agents = int(self.mpi.CalcCommWorldTotalSingle(len(self.agents)))
 
         if self.mpi.rank == 0 and log is True:
             print(
-- 
2.43.0


From d2c94ada19fac94019f41b7ead1568750f4856b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 15/59] fix: markers do not use up awareness in precomputed
 routes

---
 flee/crawling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flee/crawling.py b/flee/crawling.py
index c1f2d30..690cfb6 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -144,6 +144,9 @@ def calculateLocCrawlLinkWeight(
 
       _addLocationRoute(source_loc, loc, link, prior_distance, origin_names, time, major=False)
 
+  else:
+      step -= 1
+
   if SimulationSettings.move_rules["AwarenessLevel"] > step:
       # Traverse the tree one step further.
       for lel in link.endpoint.links:
-- 
2.43.0


From f1d64090d3512393ca72f9b4443d1eb8ce971c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 16/59] fix: recompute the fixed routes of all locations every
 day in loc-par mode

---
 flee/pflee.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index 7ac1c73..b7e5504 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -818,6 +818,9 @@ class Ecosystem(flee.Ecosystem):
             if self.mpi.rank < lpr_remainder:
                 num_locs_on_this_rank += 1
 
+            for loc in self.locations:
+                loc.routes = {}
+
             for i in range(offset, offset + num_locs_on_this_rank):
                 self.locations[i].updateAllScores(time=self.time)
 
-- 
2.43.0


From eb361d49a426a76f82da958cee9379442766c76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 17/59] fix: refresh spawn weights and the list of places
 visited daily in parallel runs

---
 flee/pflee.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index b7e5504..201b039 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -787,6 +787,8 @@ class Ecosystem(flee.Ecosystem):
             None.
 
         """
+        spawning.refresh_spawn_weights(self) # Required to correctly incorporate TakeFromPopulation and ConflictSpawnDecay.
+
         if self.time == 0:
             # print("rank, num_agents:", self.mpi.rank, len(self.agents))
 
@@ -852,6 +854,8 @@ class Ecosystem(flee.Ecosystem):
 
         # update agent locations
         for a in self.agents:
+            if SimulationSettings.log_levels["agent"] > 1:
+                a.locations_visited = []
             if a.location is not None:
                 a.evolve(self, time=self.time)
 
-- 
2.43.0


From baf904ca3fc8b69fc2d43ccdba8dd37cab81bbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 18/59] fix: with awareness level 0, return a random link's
 destination as the route

---
 flee/crawling.py | 4 ++--
 flee/moving.py   | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index 690cfb6..7c829fc 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -265,8 +265,8 @@ def generateLocationRoutes(l, time: int, debug: bool = False):
   l.routes = {}
 
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
-    linklen = len(l.links)
-    return [np.random.randint(0, linklen)]
+    # People choose a link at random (see moving.selectRoute).
+    return l.routes
 
   for k, e in enumerate(l.links):
     calculateLocCrawlLinkWeight(
diff --git a/flee/moving.py b/flee/moving.py
index 41fbd30..cf7e9df 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -485,7 +485,9 @@ def selectRoute(a, time: int, debug: bool = False, return_all_routes: bool = Fal
 
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
       linklen = len(a.location.links)
-      return [np.random.randint(0, linklen)]
+      if linklen == 0:
+          return None
+      return [a.location.links[np.random.randint(0, linklen)].endpoint.name]
 
   if SimulationSettings.move_rules["FixedRoutes"] is True:
       for l in a.location.routes.keys():
-- 
2.43.0


From 649fe252105f874cc9a9d6847634f0841113d7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 19/59] fix: import spawning for the ethnicity matching rules

---
 flee/moving.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/moving.py b/flee/moving.py
index cf7e9df..9f333b4 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -4,6 +4,7 @@ import numpy as np
 import random
 from beartype.typing import List, Optional, Tuple
 from flee.SimulationSettings import SimulationSettings
+import flee.spawning as spawning
 
 if os.getenv("FLEE_TYPE_CHECK") is not None and os.environ["FLEE_TYPE_CHECK"].lower() == "true":
     from beartype import beartype as check_args_type
-- 
2.43.0


From 0b4f72856feeb0400e349959ef44ec74117b8d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 20/59] fix: weigh destinations by the distance to home, not to
 the current location

---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index 9f333b4..eea5a94 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -49,7 +49,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
 
     if SimulationSettings.move_rules["StayCloseToHome"]:
         power_factor = SimulationSettings.move_rules["HomeDistancePower"]
-        base *= 1.0/(max(1.0,endpoint.calculateDistance(agent.location))**power_factor)
+        base *= 1.0/(max(1.0,endpoint.calculateDistance(agent.home_location))**power_factor)
 
     # DFlee Flood Location Weight implementation
     if SimulationSettings.move_rules["FloodRulesEnabled"] is True:
-- 
2.43.0


From 7accb28be1399a3917d18a59ddaf6ea58bcbc4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 21/59] fix: weigh destinations by population, at least 1

---
 flee/moving.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index eea5a94..b6dbf95 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -142,12 +142,12 @@ def getEndPointScore(agent, endpoint, time) -> float:
         if SimulationSettings.move_rules["MatchConflictEthnicity"]:
             base *= (spawning.getAttributeRatio(endpoint, agent.attributes["ethnicity"]) * 10.0)
         if SimulationSettings.move_rules["UsePopForLocWeight"]:
-            base *= min(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
+            base *= max(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
     else:
         if SimulationSettings.move_rules["MatchTownEthnicity"]:
             base *= (spawning.getAttributeRatio(endpoint, agent.attributes["ethnicity"]) * 10.0)
         if SimulationSettings.move_rules["UsePopForLocWeight"]:
-            base *= min(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
+            base *= max(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
 
     return base
 
-- 
2.43.0


From b2c459668502bdd9fcc8c1d1b7f8fbad0e76b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 22/59] fix: prune exactly the routes whose weights are pruned

---
 flee/moving.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index b6dbf95..f72892f 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -458,8 +458,8 @@ def pruneRoutes(weights, routes):
     i = 0
     while i < len(weights):
         if weights[i] < min_weight_threshold:
-            weights.remove(weights[i])
-            routes.remove(routes[i])
+            del weights[i]
+            del routes[i]
             i -= 1
         i += 1
 
-- 
2.43.0


From e304aa8b1ab507617473855e42b0da8b6b0cedc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 23/59] fix: give every location, link and person its own
 attributes

---
 flee/flee.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index a82bb66..3c201fc 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -72,7 +72,7 @@ class Person:
         # current link.
         self.distance_travelled_on_link = 0
 
-        self.attributes=attributes
+        self.attributes = dict(attributes) # Not shared with the caller or with other people.
         self.route = []
 
         if SimulationSettings.log_levels["agent"] > 0:
@@ -357,7 +357,7 @@ class Location:
         self.time_of_conflict = -1 # Time that a major conflict event last took place.
         self.numAgentsSpawned = 0
 
-        self.attributes = attributes # This will store a range of attributes that are read from file.
+        self.attributes = dict(attributes) # This will store a range of attributes that are read from file.
 
         if location_type is not None:
             if "camp" in location_type.lower():
@@ -685,7 +685,8 @@ class Link:
         # if True, then all Persons will go down this link.
         self.forced_redirection = forced_redirection
 
-        self.attributes = attributes
+        # Not shared with other links (e.g. the one in the opposite direction).
+        self.attributes = dict(attributes)
 
 
     @check_args_type
-- 
2.43.0


From 1217a8bad3dfd0e040350afc040383e10f9ab17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 24/59] fix: create every route once when it forces redirection

---
 flee/InputGeography.py       | 2 +-
 flee/micro_InputGeography.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index bfdbe6e..4ebc612 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -534,7 +534,7 @@ class InputGeography:
                         forced_redirection=True,
                         attributes=attributes,
                     )
-                if int(l3) == 2:
+                elif int(l3) == 2:
                     e.linkUp(
                         endpoint1=link[1],
                         endpoint2=link[0],
diff --git a/flee/micro_InputGeography.py b/flee/micro_InputGeography.py
index e351c96..7a96aeb 100644
--- a/flee/micro_InputGeography.py
+++ b/flee/micro_InputGeography.py
@@ -159,7 +159,7 @@ class InputGeography(based_InputGeography_class):
                         forced_redirection=True,
                         link_type=str(link[4]),
                     )
-                if int(link[3]) == 2:
+                elif int(link[3]) == 2:
                     e.linkUp(
                         endpoint1=link[1],
                         endpoint2=link[0],
-- 
2.43.0


From 3b6f8e571b2291756735bc26532308f164c0dee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 25/59] fix: read the conflict date from its own column

---
 flee/InputGeography.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 4ebc612..d4cdce0 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -124,7 +124,7 @@ class InputGeography:
         if len(SimulationSettings.ConflictInputFile) == 0:
             conflict_names = []
             for loc in self.locations:
-                if "conflict" in loc[4].lower():
+                if "conflict" in loc[5].lower():
                     conflict_names += [loc[0]]
             print(conflict_names, file=sys.stderr)
             return conflict_names
@@ -658,12 +658,15 @@ class InputGeography:
 
         elif len(SimulationSettings.ConflictInputFile) == 0:
             for loc in self.locations:
-                if "conflict" in loc[4].lower() and int(loc[5]) == time:
+                if "conflict" in loc[5].lower() and int(loc[6]) == time:
                     conflict_intensity = 1.0
+                    for l in e.locations:
+                        if l.name == loc[0]:
+                            conflict_intensity = float(l.attributes.get("conflict_intensity", 1.0))
                     if e.print_location_output:
                         print(
                             "Time = {}. Adding a new conflict zone [{}] with pop. {} and intensity {}".format(
-                                time, loc[0], int(loc[1]), conflict_intensity
+                                time, loc[0], loc[7], conflict_intensity
                             ),
                             file=sys.stderr,
                         )
@@ -675,7 +678,7 @@ class InputGeography:
 
             for conflict_name in conflict_names:
                 if len(self.conflicts[conflict_name]) < (time - 1):
-                    print(f"Error: conflict value at time {time} requested, but the conflicts table for {conflict_name} only has values up to t = {len(conflicts[conflict_name])}.", file=sys.stderr)
+                    print(f"Error: conflict value at time {time} requested, but the conflicts table for {conflict_name} only has values up to t = {len(self.conflicts[conflict_name])}.", file=sys.stderr)
 
                 if Debug and e.getRankN(e.time) is True:
                     print("L:", conflict_name, self.conflicts[conflict_name], time, file=sys.stderr)
-- 
2.43.0


From 33bc09a2ae2f7f6b1c82ec3df960fe8113d3f9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 26/59] fix: skip comment and empty lines in the major routes
 file

---
 flee/InputGeography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index d4cdce0..221d7ad 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -269,7 +269,7 @@ class InputGeography:
             values = csv.reader(csvfile)
             for row in values:
                 if len(row) == 0 or row[0][0] == "#":
-                    pass
+                    continue
                 self.major_routes.append(row)
 
 
-- 
2.43.0


From 8ee8b4aa95dd664d020e8f181662daf296869f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 27/59] fix: write agent logs with region granularity

---
 flee/Diagnostics.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index 8cef636..9c9bd36 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -46,6 +46,22 @@ def print_attribute_values(a):
     return out
 
 
+def region_name(location):
+    """
+    Summary:
+        Return the region of a location, or the two regions connected by a link.
+
+    Args:
+        location: A Location or Link.
+
+    Returns:
+        str: The region name.
+    """
+    if hasattr(location, "startpoint"):
+        return "L:{}:{}".format(location.startpoint.region, location.endpoint.region)
+    return location.region
+
+
 @check_args_type
 def write_agents_par(
     rank: int, agents, time: int, max_written: int = -1, timestep_interval: int = 1
@@ -92,7 +108,7 @@ def write_agents_par(
             y = a.location.y
 
             if SimulationSettings.log_levels["granularity"] == "region":
-                loc_name = location.region
+                loc_name = region_name(a.location)
                 x = 0.0
                 y = 0.0
 
@@ -122,7 +138,7 @@ def write_agents_par(
                         x = l.x
                         y = l.y
                         if SimulationSettings.log_levels["granularity"] == "region":
-                            loc_name = l.region
+                            loc_name = region_name(l)
                             x = 0.0
                             y = 0.0
 
@@ -151,7 +167,7 @@ def write_agents_par(
                         x = l.x
                         y = l.y
                         if SimulationSettings.log_levels["granularity"] == "region":
-                            loc_name = l.region
+                            loc_name = region_name(l)
                             x = 0.0
                             y = 0.0
 
-- 
2.43.0


From 24f86f28324969b9e9939914a072db9e86cd9a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 28/59] fix: write agent logs when there are no agents on the
 first day

---
 flee/Diagnostics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index 9c9bd36..b5fde68 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -87,7 +87,9 @@ def write_agents_par(
         my_file = open("agents.out.%s" % rank, "w", encoding="utf-8")
         print(
             "#time,rank-agentid,original_location,current_location,gps_x,gps_y,is_travelling,distance_travelled,"
-            "places_travelled,distance_moved_this_timestep,{}".format(print_attribute_keys(agents[0])),
+            "places_travelled,distance_moved_this_timestep,{}".format(
+                print_attribute_keys(agents[0]) if len(agents) > 0 else ""
+            ),
             file=my_file,
         )
     else:
-- 
2.43.0


From c0f8f31a5bde61c2289d20ff1106b9dad5a83d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 29/59] fix: couple when the other code hands over nobody to a
 location

---
 flee/coupling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 84a9f8a..96db422 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -352,7 +352,7 @@ class CouplingInterface:
                     if "in" in self.directions[i]:
 
                         print(
-                            "Couple IN: {} {}".format(self.names[i], newAgents[self.names[i]]),
+                            "Couple IN: {} {}".format(self.names[i], newAgents.get(self.names[i], 0)),
                             file=sys.stderr,
                         )
 
-- 
2.43.0


From 484bcd39b82f690fab6de2664ab5ff131cc57e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 30/59] fix: coupling only removes people that have been handed
 over

---
 flee/coupling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 96db422..171a475 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -344,7 +344,11 @@ class CouplingInterface:
                 newAgents = self.readInputFromFile(t=time)
 
             if self.submodel in ["micro", "macro"]:
-                self.e.clearLocationsFromAgents(location_names=self.location_names)
+                # only people that have been handed over leave this simulation.
+                out_names = [
+                    n for n, d in zip(self.location_names, self.directions) if "out" in d
+                ]
+                self.e.clearLocationsFromAgents(location_names=out_names)
                 for i in range(0, len(self.location_names)):
                     # write departing agents to file
                     # read incoming agents from file
-- 
2.43.0


From 7f64d931628b41e3c155d9988a8b63e0697706fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 31/59] fix: coupling files appear only when they are complete

---
 flee/coupling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 171a475..7dd0199 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -462,8 +462,11 @@ class CouplingInterface:
         csv_outputfile_name = "{}[{}].{}.csv".format(self.outputfilename, self.instance_index, day)
         csv_outputfile_path = os.path.join(self.outputdir, "file", "coupled", csv_outputfile_name)
 
-        with open(csv_outputfile_path, "a", encoding="utf-8") as file:
+        # The other code reads this file as soon as it exists, so it only appears once complete.
+        csv_tempfile_path = csv_outputfile_path + ".tmp"
+        with open(csv_tempfile_path, "w", encoding="utf-8") as file:
             file.write(out_csv_string)
+        os.replace(csv_tempfile_path, csv_outputfile_path)
 
         print(
             "{}[{}] t={} Couple: output written to {}".format(
-- 
2.43.0


From 564a682a685d0caa867640df07c12184012908e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 32/59] fix: spawning nobody needs no conflict zone

---
 flee/flee.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flee/flee.py b/flee/flee.py
index 3c201fc..cd8f38e 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1611,6 +1611,9 @@ class Ecosystem:
         Returns:
             list[Location]: A list of unique locations.
         """
+        if number == 0:
+            return []
+
         spawn_weight_total = sum(self.spawn_weights)
 
         assert spawn_weight_total > 0
-- 
2.43.0


From 6fd048799ffb5a298d39fab5e1f139da7d655b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 33/59] fix: keep the refugee debt of one simulation out of the
 next

---
 flee/spawning.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 512f11a..4e3ceac 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -14,9 +14,6 @@ else:
         return func
 
 
-__refugees_raw = 0
-__refugee_debt = 0
-
 __demographics = {}
 
 
@@ -231,7 +228,9 @@ def spawn_daily_displaced(e, t, d):
         Tuple[int, int, int]: Tuple containing the number of new agents, 
         the raw refugee count, and the refugee debt.
     """
-    global __refugees_raw, __refugee_debt
+    # Raw refugee count and refugee debt are kept per simulation.
+    __refugees_raw = getattr(e, "refugees_raw", 0)
+    __refugee_debt = getattr(e, "refugee_debt", 0)
 
     new_refs = 0
 
@@ -322,6 +321,9 @@ def spawn_daily_displaced(e, t, d):
         attributes = draw_samples(e, locs[i])
         e.addAgent(location=locs[i], attributes=attributes) # Parallelization is incorporated *inside* the addAgent function.
 
+    e.refugees_raw = __refugees_raw
+    e.refugee_debt = __refugee_debt
+
     return new_refs, __refugees_raw, __refugee_debt
 
 
-- 
2.43.0


From 1c530ff99707205ec9f0e674ba589897849f84f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 34/59] fix: spawn_agents uses pick_spawn_locations

---
 flee/spawning.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 4e3ceac..77615e5 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -340,8 +340,7 @@ def spawn_agents(e, number):
         None.
     """
     #Insert refugee agents
-    for i in range(0, number):
-        loc = e.pick_spawn_location()
+    for loc in e.pick_spawn_locations(number):
         attributes = draw_samples(e, loc)
         e.addAgent(location=loc, attributes=attributes) # Parallelization is incorporated *inside* the addAgent function.
 
-- 
2.43.0


From 4247a50c92dc84115fda2acc2308e6d42510e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 35/59] fix: add data tables with different dates

---
 flee/datamanager/DataTable.py | 39 +++++++++++------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/flee/datamanager/DataTable.py b/flee/datamanager/DataTable.py
index c365430..e603b0e 100644
--- a/flee/datamanager/DataTable.py
+++ b/flee/datamanager/DataTable.py
@@ -129,33 +129,18 @@ def AddCSVTables(table1: np.ndarray, table2: np.ndarray) -> np.ndarray:
     """
     table = np.zeros([0, 2])
 
-    offset = 0
-    last_c2 = np.zeros(([1, 2]))
-    for c2 in table2:
-
-        # If table 2 date value is higher, then keep adding entries from table
-        # 1
-        while c2[0] > table1[offset][0]:
-            table = np.vstack([table, [table1[offset][0], last_c2[1] + table1[offset][1]]])
-            if offset < len(table1) - 1:
-                offset += 1
-            else:
-                break
-
-        # If the two match, add a total.
-        if c2[0] == table1[offset][0]:
-            table = np.vstack([table, [c2[0], c2[1] + table1[offset][1]]])
-            if offset < len(table1) - 1:
-                offset += 1
-            last_c2 = c2
-            continue
-
-        # If table 1 value is higher, add an aggregate entry, and go to the
-        # next iteration without increasing the offset.
-        if c2[0] < table1[offset][0]:
-            table = np.vstack([table, [c2[0], c2[1] + table1[offset][1]]])
-            last_c2 = c2
-            continue
+    days = sorted(set([row[0] for row in table1] + [row[0] for row in table2]))
+
+    for day in days:
+        # Each table contributes its latest entry so far.
+        total = 0.0
+        for t in [table1, table2]:
+            value = 0.0
+            for row in t:
+                if row[0] <= day:
+                    value = row[1]
+            total += value
+        table = np.vstack([table, [day, total]])
 
     return table
 
-- 
2.43.0


From c6f9a8144ad778f9f869f6a72007496410ded51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:22 +0000
Subject: [PATCH 36/59] fix: level 1 corrections at dates without registration
 change nothing, others scale to the registered value

---
 flee/datamanager/handle_refugee_data.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/flee/datamanager/handle_refugee_data.py b/flee/datamanager/handle_refugee_data.py
index bda8141..6dbe743 100644
--- a/flee/datamanager/handle_refugee_data.py
+++ b/flee/datamanager/handle_refugee_data.py
@@ -71,23 +71,26 @@ class RefugeeTable(DataTable.DataTable):
             #If the wrong data is before the simulation period, then ignore the correction altogether.
             return 1.0
 
+        scaling_factor = 1.0
+
         for i in range(0, len(ref_table)):
             if int(ref_table[i][0]) == int(days):
                 # then scale all previous entries by ref_table[i][1]/ref_table[i-1][1]
                 if i > 0:
-                    first_level_2_value = ref_table[i, 1] + self.day0pops.get(name, 0)
-                    last_level_1_value = ref_table[i - 1, 1] + self.day0pops.get(name, 0)
+                    first_level_2_value = ref_table[i, 1]
+                    last_level_1_value = ref_table[i - 1, 1]
 
                     if last_level_1_value < 1:
                         print("Error in correctLevel1Registrations: last level 1 value is less than 1.", file=sys.stderr)
                         print(f"Name: {name}, date: {date} (Day {days})", file=sys.stderr)
-                        print(f"Last level 1 value: {last_level_1_value} Last data value: {ref_table[i - 1, 1]} Day0Pop: {self.day0pops.get(name, 0)}", file=sys.stderr)
+                        print(f"Last level 1 value: {last_level_1_value} Last data value: {ref_table[i - 1, 1]}", file=sys.stderr)
                         sys.exit()
                     # print(days, i, ref_table[0:i,1])
-                    ref_table[0:i, 1] *= first_level_2_value / last_level_1_value
+                    scaling_factor = first_level_2_value / last_level_1_value
+                    ref_table[0:i, 1] *= scaling_factor
                     # print(first_level_2_value, last_level_1_value, ref_table[0:i,1])
 
-        return float(first_level_2_value / last_level_1_value)
+        return float(scaling_factor)
 
     @check_args_type
     def getMaxFromData(self, name: str, days: int) -> int:
-- 
2.43.0


From b524dc7b84ae84be0f6d6fd733809c6e9fea6685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 37/59] fix: pruning when there are no routes at all

---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index f72892f..dc8a684 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -450,7 +450,7 @@ def pruneRoutes(weights, routes):
     #check_routes(weights, routes, "START")
 
     threshold = SimulationSettings.move_rules["PruningThreshold"]
-    if threshold < 1.001:
+    if threshold < 1.001 or len(weights) == 0:
         #check_routes(weights, routes, "LOTHRESHOLD")
         return weights, routes
 
-- 
2.43.0


From fd982e4b0a0a4054f3feb8f7a02f38807b2028df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 38/59] fix: flood level 0 leaves the score of a location alone

---
 flee/scoring.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flee/scoring.py b/flee/scoring.py
index 9d745f7..3ef99f0 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -50,7 +50,9 @@ def updateLocationScore(time: int, loc) -> None:
         flood_level = loc.attributes.get("flood_level")
         
         if flood_level is not None:
-            score *= float(SimulationSettings.move_rules["FloodLocWeights"][flood_level])
+            # a flood level of 0 means no flooding, whatever weight is configured for it.
+            if flood_level > 0:
+                score *= float(SimulationSettings.move_rules["FloodLocWeights"][flood_level])
         
             #Flooding Forecaster Location Score Implementation:
             if SimulationSettings.move_rules["FloodForecaster"] is True:
-- 
2.43.0


From 84922431856478b6f5b759c74243a1433386d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:20 +0000
Subject: [PATCH 39/59] fix: read the flood forecast of a location from the
 attribute it is stored in

---
 flee/scoring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/scoring.py b/flee/scoring.py
index 3ef99f0..f60c50c 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -86,8 +86,8 @@ def updateLocationScore(time: int, loc) -> None:
                                     forecast_day = forecast_end_time  # same as time + x
 
                                 #Get the forecast flood level for the location on the day we're considering in the for loop
-                                forecast_flood_level = loc.attributes.get("forecast_flood_level",0)
-                        
+                                forecast_flood_level = loc.attributes["forecast_flood_levels"][forecast_day]
+
                                 # print("forecast_flood_level",forecast_flood_level, file=sys.stderr)
                                 # print("forecast_day",forecast_day, file=sys.stderr)
                                 # forecast_flood_level = loc.attributes.get("forecast_flood_level",0)[forecast_day]
-- 
2.43.0


From e227d9b75b592dbfedc7b9895b6e64bad0dccb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:03 +0000
Subject: [PATCH 40/59] fix: change the forced redirection of links that are
 closed at the time

---
 flee/flee.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index cd8f38e..8baa730 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1459,10 +1459,11 @@ class Ecosystem:
         id1 = self._convert_location_name_to_index(loc1_name)
         if id1 < 0:
             return
-        for i in range(0, len(self.locations[id1].links)):
-            if self.locations[id1].links[i].endpoint.name == loc2_name:
-                old_val = self.locations[id1].links[i].forced_redirection
-                self.locations[id1].links[i].forced_redirection = value
+        # a link that is closed today keeps the setting for when it is reopened.
+        for link in self.locations[id1].links + self.locations[id1].closed_links:
+            if link.endpoint.name == loc2_name:
+                old_val = link.forced_redirection
+                link.forced_redirection = value
                 print("Time = {}. Redirection {}-{} changed from {} to {}.".format(self.time, loc1_name, loc2_name, old_val, value), file=sys.stderr)
 
 
-- 
2.43.0


From 29a2a885c2a2fc2738207a365955698f639fc32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:08 +0000
Subject: [PATCH 41/59] fix: place new arrivals with up-to-date spawn weights

---
 flee/flee.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flee/flee.py b/flee/flee.py
index 8baa730..cebe79d 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1615,6 +1615,9 @@ class Ecosystem:
         if number == 0:
             return []
 
+        # the weights of the previous time step may be out of date (conflict decay, location changes, population).
+        spawning.refresh_spawn_weights(self)
+
         spawn_weight_total = sum(self.spawn_weights)
 
         assert spawn_weight_total > 0
-- 
2.43.0


From 3b4f4a07eee5db52eb3b8c3f9466cd48e86228c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:18 +0000
Subject: [PATCH 42/59] fix: flood-driven Poisson spawning uses the configured
 mean, not its integer part

---
 flee/spawning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 77615e5..a1c5629 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -280,7 +280,7 @@ def spawn_daily_displaced(e, t, d):
                 num_spawned = int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level] * e.locations[i].pop)
     
             elif SimulationSettings.spawn_rules["flood_spawn_mode"].lower() == "poisson":
-                num_spawned = np.random.poisson(int(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level]))
+                num_spawned = np.random.poisson(SimulationSettings.spawn_rules["displaced_per_flood_day"][flood_level])
 
         ## Doing the actual spawning here.
         for j in range(0, num_spawned):
-- 
2.43.0


From 68f9d37c6af964782d59d42783738df9d80ddfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:08 +0000
Subject: [PATCH 43/59] fix: day-0 total of an empty start is the total
 column's own value

---
 flee/datamanager/DataTable.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/flee/datamanager/DataTable.py b/flee/datamanager/DataTable.py
index e603b0e..17b9924 100644
--- a/flee/datamanager/DataTable.py
+++ b/flee/datamanager/DataTable.py
@@ -331,7 +331,6 @@ class DataTable:
             # ref_table = self.data_table[0]
 
             new_refugees = 0
-            self.day0pops["total"] = 0
 
             for i in self.header:
                 camp_pop = self.get_field(
@@ -345,13 +344,11 @@ class DataTable:
 
                 if SumFromCamps is True:
                     new_refugees += camp_pop
-                    self.day0pops["total"] += camp_pop
 
             if SumFromCamps is False:
                 new_refugees = self.get_field(
                     name="total", day=0, FullInterpolation=FullInterpolation
                 )
-                self.day0pops["total"] = new_refugees
 
             # Don't have new refugees on Day 0 if we start empty
             new_refugees *= (1 - self.start_empty)
-- 
2.43.0


From f488d7b97e288f378080231877f784ebbcf8ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:57 +0000
Subject: [PATCH 44/59] fix: attribute ratios of locations whose attributes are
 read from file

---
 flee/spawning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index a1c5629..051f392 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -29,7 +29,7 @@ def getAttributeRatio(location, attr_name):
     Returns:
         float: Ratio of attribute value to maximum attribute value in the location.
     """
-    return location.attributes[attr_name] / float(location.pop)
+    return float(location.attributes[attr_name]) / float(location.pop)
 
 
 def refresh_spawn_weights(e):
-- 
2.43.0


From 90c5866523aa68c83e3ca754e1c9434f44369abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:01 +0000
Subject: [PATCH 45/59] fix: ages of people read from agents.csv are text

---
 flee/moving.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index dc8a684..3bef1a9 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -38,11 +38,11 @@ def getEndPointScore(agent, endpoint, time) -> float:
 
     #["ChildrenAvoidHazards", "BoysTakeRisk", "MatchCampEthnicity", "MatchTownEthnicity", "MatchConflictEthnicity"]
     if SimulationSettings.move_rules["ChildrenAvoidHazards"]:
-        if agent.attributes["age"]<19:
+        if float(agent.attributes["age"])<19:
             # For children the safety of the destination is more important than for adults.
             base = base*base
         if SimulationSettings.move_rules["BoysTakeRisk"]:
-            if agent.attributes["gender"]=="male" and agent.attributes["age"]>14:
+            if agent.attributes["gender"]=="male" and float(agent.attributes["age"])>14:
                 # Hypothesis that perceived safety does not affect routing decisions for teenage boys.
                 base = 1 
 
-- 
2.43.0


From 27813793abb7fd3fed055fd37a2b5cd0e102bd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:24 +0000
Subject: [PATCH 46/59] fix: forced redirections act in the documented
 direction (1: to name1, 2: to name2)

---
 flee/InputGeography.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 221d7ad..32cb083 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -526,7 +526,8 @@ class InputGeography:
                 if len(l3) == 0:
                     l3 = 0
 
-                if int(l3) == 1:
+                # 1: redirection from name2 to name1, 2: from name1 to name2.
+                if int(l3) == 2:
                     e.linkUp(
                         endpoint1=link[0],
                         endpoint2=link[1],
@@ -534,7 +535,7 @@ class InputGeography:
                         forced_redirection=True,
                         attributes=attributes,
                     )
-                elif int(l3) == 2:
+                elif int(l3) == 1:
                     e.linkUp(
                         endpoint1=link[1],
                         endpoint2=link[0],
-- 
2.43.0


From 03e3784d4f5c364857b2a4b8a144ca3a2cc2b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:38 +0000
Subject: [PATCH 47/59] fix: comment and empty lines before the header of
 agents.csv

---
 flee/InputGeography.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 32cb083..b27d333 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -381,11 +381,11 @@ class InputGeography:
         with open(csv_name, newline="", encoding="utf-8") as csvfile:
             values = csv.reader(csvfile)
 
-            i = 0
+            headers = None
             for row in values:
                 if len(row) == 0 or row[0][0] == "#":
                     pass
-                elif i == 0:
+                elif headers is None:
                     headers = row[1:]
                     print(headers)
                 else:
@@ -402,7 +402,6 @@ class InputGeography:
 
                     if not loc_found:
                         print("could not map location to CSV-loaded agent on line. (not count commented lines or empty lines)", sys.stderr)
-                i += 1
 
 
     def StoreInputGeographyInEcosystem(self, e):
-- 
2.43.0


From 086fa2079b1e6c5178746861cff3dff25d415b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:46 +0000
Subject: [PATCH 48/59] fix: major routes with trailing empty cells are two-way
 too

---
 flee/InputGeography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index b27d333..37bae43 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -270,7 +270,7 @@ class InputGeography:
             for row in values:
                 if len(row) == 0 or row[0][0] == "#":
                     continue
-                self.major_routes.append(row)
+                self.major_routes.append([x for x in row if x])
 
 
     @check_args_type
-- 
2.43.0


From 9c17b178908c488c90aa927dbd6f3242542e5855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:40 +0000
Subject: [PATCH 49/59] fix: region granularity hides the name of the home
 location as well

---
 flee/Diagnostics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index b5fde68..f9558e7 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -105,11 +105,13 @@ def write_agents_par(
             if a.location is None: #Do not write agent logs for agents that are removed from the simulation.
                 continue
 
+            home_name = a.home_location.name
             loc_name = a.location.name
             x = a.location.x
             y = a.location.y
 
             if SimulationSettings.log_levels["granularity"] == "region":
+                home_name = region_name(a.home_location)
                 loc_name = region_name(a.location)
                 x = 0.0
                 y = 0.0
@@ -119,7 +121,7 @@ def write_agents_par(
                     time,
                     rank,
                     k,
-                    a.home_location.name,
+                    home_name,
                     loc_name,
                     x,
                     y,
@@ -150,7 +152,7 @@ def write_agents_par(
                                 hop_number,
                                 rank,
                                 k,
-                                a.home_location.name,
+                                home_name,
                                 loc_name,
                                 x,
                                 y,
@@ -178,7 +180,7 @@ def write_agents_par(
                                 time,
                                 rank,
                                 k,
-                                a.home_location.name,
+                                home_name,
                                 loc_name,
                                 x,
                                 y,
-- 
2.43.0


From abc6bca7cf34391a7c296440502914301829b1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:52 +0000
Subject: [PATCH 50/59] fix: distance of opposite places does not fail on
 rounding errors

---
 flee/flee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/flee.py b/flee/flee.py
index cebe79d..a2d718b 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -439,7 +439,7 @@ class Location:
         dlat = lat2 - lat1
 
         a = math.sin(dlat / 2)**2 + math.cos(lat1) * math.cos(lat2) * math.sin(dlon / 2)**2
-        c = 2 * math.atan2(math.sqrt(a), math.sqrt(1 - a))
+        c = 2 * math.atan2(math.sqrt(a), math.sqrt(max(0.0, 1 - a)))
 
         return R * c
 
-- 
2.43.0


From c24ae2cde8d339b2c9cf06f03de81d98455f1672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:44 +0000
Subject: [PATCH 51/59] fix: forced redirections of the microscale reader act
 in the documented direction

---
 flee/micro_InputGeography.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flee/micro_InputGeography.py b/flee/micro_InputGeography.py
index 7a96aeb..11c7f05 100644
--- a/flee/micro_InputGeography.py
+++ b/flee/micro_InputGeography.py
@@ -151,7 +151,8 @@ class InputGeography(based_InputGeography_class):
 
         for link in self.links:
             if len(link) > 4:
-                if int(link[3]) == 1:
+                # 1: redirection from name2 to name1, 2: from name1 to name2.
+                if int(link[3]) == 2:
                     e.linkUp(
                         endpoint1=link[0],
                         endpoint2=link[1],
@@ -159,7 +160,7 @@ class InputGeography(based_InputGeography_class):
                         forced_redirection=True,
                         link_type=str(link[4]),
                     )
-                elif int(link[3]) == 2:
+                elif int(link[3]) == 1:
                     e.linkUp(
                         endpoint1=link[1],
                         endpoint2=link[0],
-- 
2.43.0


From e3b781f493a91f2764229b527037755551b0b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:38 +0000
Subject: [PATCH 52/59] fix: major routes are compared with the routes of the
 location they start from

---
 flee/crawling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index 7c829fc..ac9a129 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -72,7 +72,7 @@ def _addLocationRoute(
     weight = weight**SimulationSettings.move_rules["WeightPower"]
 
     #print("Adding loc route:", origin_names[1:], link.endpoint.name, file=sys.stderr)
-    if weight > loc.routes.get(link.endpoint.name, [0,None])[0]:
+    if weight > source_loc.routes.get(link.endpoint.name, [0,None])[0]:
         source_loc.routes[link.endpoint.name] = [weight, origin_names[1:] + [link.endpoint.name], link.endpoint]
 
 
-- 
2.43.0


From f7da03e46774350ff94ffa901d39d8f999f226c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:19 +0000
Subject: [PATCH 53/59] fix: simulations have attributes of their own for
 setAttribute

---
 flee/flee.py  | 1 +
 flee/pflee.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/flee/flee.py b/flee/flee.py
index a2d718b..8aa887b 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -798,6 +798,7 @@ class Ecosystem:
         self.closures = []  # format [type, source, dest, start, end]
         self.time = 0
         self.print_location_output = True  # print location output data
+        self.attributes = {}  # attributes of the simulation itself (see setAttribute).
 
         # FLEE3 does not have a conflict zone list, and spawn weights cover all locations.
         self.spawn_weights = np.array([])
diff --git a/flee/pflee.py b/flee/pflee.py
index 201b039..074a20f 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -402,6 +402,7 @@ class Ecosystem(flee.Ecosystem):
         self.closures = []  # format [type, source, dest, start, end]
         self.time = 0
         self.print_location_output = False
+        self.attributes = {}  # attributes of the simulation itself (see setAttribute).
         self.mpi = MPIManager()
 
         if self.getRankN(0):
-- 
2.43.0


From 890ab9a4e5986c09e915b77b1fa2f59c6363e7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:10 +0000
Subject: [PATCH 54/59] fix: document the flood settings under the names and
 sections that are read

---
 ...sing_DFlee_For_Disaster_Driven_Displacement.md | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/docs/Using_DFlee_For_Disaster_Driven_Displacement.md b/docs/Using_DFlee_For_Disaster_Driven_Displacement.md
index 31bb1ed..d6945fd 100644
--- a/docs/Using_DFlee_For_Disaster_Driven_Displacement.md
+++ b/docs/Using_DFlee_For_Disaster_Driven_Displacement.md
@@ -15,11 +15,11 @@ To introduce flood-driven displacement, you will need to change several settings
 
 In the section `spawn_rules`, you will need to add or set the following:
 ```yaml
-  flood_driven_spawning: True
+  conflict_zone_spawning_only: False
   flood_zone_spawning_only: True
   take_from_population: True
   flood_driven_spawning:
-    flood_spawn_mode: "pop_ratio"
+    spawn_mode: "pop_ratio"
     displaced_per_flood_day: [0.0,0.1,0.2,0.5,0.9]
 ```
 
@@ -32,10 +32,11 @@ Here, `displaced_per_flood_day` contains a list of floats. Each float in the lis
 
 In the section `move_rules`, you will need to add or set the following:
 ```yaml
-  max_flood_level: 4
-  flood_movechances: [0.3,0.4,0.7,1.0,1.0]
-  flood_loc_weights: [1.0,0.5,0.2,0.0,0.0]
-  # flood_link_weights is not supported yet.
+  flood_rules:
+    max_flood_level: 4
+    flood_movechances: [0.3,0.4,0.7,1.0,1.0]
+    flood_loc_weights: [1.0,0.5,0.2,0.0,0.0]
+    # flood_link_weights is not supported yet.
 ```
 
 Here, `flood_movechances` is a list that *overrides* existing move chances, depending on the `flood_level`. Again, the first value in the list is actually ignored, as regular rules apply for unflooded areas. `flood_loc_weights` is a list that *multiplies* location weights based on the `flood_level`. The first value is ignored, and locations with lower weights are less likely to be selected.
@@ -93,7 +94,7 @@ Each column is then the different levels of awareness of the flood for each floo
 ### YML SimSettings File  
 The YAML configuration file contains settings for flood forecasting and agent flood awareness. 
 
-The `flood_forecaster` parameter determines whether flood forecasting is enabled (True) or disabled (False). To enable forecasting in `simsettings.yml` include the following:
+The `flood_forecaster` parameter determines whether flood forecasting is enabled (True) or disabled (False). To enable forecasting in `simsettings.yml` include the following in the `flood_rules` subsection of `move_rules` (as for all other forecaster settings):
 ```
 flood_forecaster: True
 ```
-- 
2.43.0


From eeb1ee2070fabd0b549a1f3905faa427d9c6c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:30 +0000
Subject: [PATCH 55/59] fix: the flood forecast weight is the average over the
 forecast, not its square

---
 flee/moving.py  | 2 +-
 flee/scoring.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index 3bef1a9..96c013f 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -119,7 +119,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
                     
                   #the flood_forecast_base now represents the total weight of the flooding during the forecast for the endpoint location,
                   # this needed to be divided by the total number of days in the forecast to get the average weight based on the severity and relative imporatance of the forecasted days
-                  flood_forecast_base *= float(flood_forecast_base/forecast_timescale)
+                  flood_forecast_base = float(flood_forecast_base/forecast_timescale)
 
                   #down weight the overall importance of the flood forecast on the base depending on the agents awareness weighting
                   #currently using a simple down weighting, but may want lower awareness agents to only respond to high flood levels 
diff --git a/flee/scoring.py b/flee/scoring.py
index f60c50c..c2c8531 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -111,7 +111,7 @@ def updateLocationScore(time: int, loc) -> None:
 
                             #the flood_forecast_base now represents the total weight of the flooding during the forecast for the endpoint location,
                             # this needed to be divided by the total number of days in the forecast to get the average weight based on the severity and relative imporatance of the forecasted days
-                            flood_forecast_score *= float(flood_forecast_score/forecast_timescale)
+                            flood_forecast_score = float(flood_forecast_score/forecast_timescale)
 
                             # Make the flood_forecast_base effect the actual base score
                             score *= flood_forecast_score
-- 
2.43.0


From 540ce4f5a843f57c5cc0daa110db171cf60f62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:26 +0000
Subject: [PATCH 56/59] fix: the attribute of a demographics file is its whole
 name after demographics_

---
 flee/spawning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 051f392..b20706e 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -95,7 +95,7 @@ def read_demographic_csv(e, csvname):
   Returns:
         None.
   """
-  attribute = (csvname.split(os.sep)[1].split('.')[0]).split('_')[1]
+  attribute = os.path.splitext(os.path.basename(csvname))[0].split('_', 1)[1]
 
   if not os.path.exists(csvname):
       return
-- 
2.43.0


From c68006820b7be0628400d3761863f76484f4589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:15 +0000
Subject: [PATCH 57/59] fix: run_par.py adds the IDP column to its header

---
 runscripts/run_par.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runscripts/run_par.py b/runscripts/run_par.py
index 751844c..72b9337 100644
--- a/runscripts/run_par.py
+++ b/runscripts/run_par.py
@@ -62,7 +62,7 @@ if __name__ == "__main__":
   output_header_string += "Total error,refugees in camps (UNHCR),total refugees (simulation),raw UNHCR refugee count,refugees in camps (simulation),refugee_debt"
 
   if SimulationSettings.log_levels["idp_totals"] > 0:
-      output += ",total IDPs".format(e.numIDPs())
+      output_header_string += ",total IDPs"
 
   if e.getRankN(0):
       print(output_header_string)
-- 
2.43.0


From f7c65c0e625f136db0d9a664287c4593dea4aea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:15 +0000
Subject: [PATCH 58/59] fix: the microscale reader reads locations in the
 columns they are stored in

---
 flee/micro_InputGeography.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/flee/micro_InputGeography.py b/flee/micro_InputGeography.py
index 11c7f05..1a6a473 100644
--- a/flee/micro_InputGeography.py
+++ b/flee/micro_InputGeography.py
@@ -109,28 +109,28 @@ class InputGeography(based_InputGeography_class):
             name = loc[0]
 
             # if population field is empty, just set it to 0.
-            if len(loc[1]) < 1:
+            if len(loc[7]) < 1:
                 population = 0
             else:
-                population = int(loc[1]) // SimulationSettings.optimisations["PopulationScaleDownFactor"]
+                population = int(loc[7]) // SimulationSettings.optimisations["PopulationScaleDownFactor"]
 
-            x = float(loc[2]) if len(loc[2]) > 0 else 0.0
-            y = float(loc[3]) if len(loc[3]) > 0 else 0.0
+            x = float(loc[3]) if len(loc[3]) > 0 else 0.0
+            y = float(loc[4]) if len(loc[4]) > 0 else 0.0
 
-            # if population field is empty, just set it to 0.
-            if len(loc[7]) < 1:
+            # if country field is empty, just set it to unknown.
+            if len(loc[2]) < 1:
                 country = "unknown"
             else:
-                country = loc[7]
+                country = loc[2]
 
             # print(loc, file=sys.stderr)
-            location_type = loc[4]
+            location_type = loc[5]
             if "conflict" in location_type.lower():
                 num_conflict_zones += 1
-                if int(loc[5]) > 0:
+                if int(loc[6]) > 0:
                     location_type = "town"
 
-            if "camp" in loc[4].lower():
+            if "camp" in location_type.lower():
                 lm[name] = e.addLocation(
                     name=name,
                     location_type=location_type,
-- 
2.43.0


From df478d8f335ed184303e06b96f700e5b8e84e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:38 +0000
Subject: [PATCH 59/59] fix: forced redirections had no effect on anybody

---
 flee/flee.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flee/flee.py b/flee/flee.py
index 8aa887b..1498321 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -190,6 +190,11 @@ class Person:
 
             # If the outcome is less than the move chance, then the agent moves.
             if outcome < movechance:
+                # A forced redirection takes precedence over the agent's own plans.
+                redirections = [l.endpoint.name for l in self.location.links if l.forced_redirection]
+                if redirections and (len(self.route) == 0 or self.route[0] not in redirections):
+                    self.route = [redirections[0]]
+
                 # If the agent does not have an existing route, then plan a new route.
                 if len(self.route) == 0:
                     # Determine which route to take
-- 
2.43.0

