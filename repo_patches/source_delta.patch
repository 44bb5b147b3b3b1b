From 0011d2afb9718e0bce6d5d16e27675b81c0bfb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 01/58] fix: a slot absent from a chunk matches an explicit
 empty-slot test, like an empty slot

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 58ea8f2..18533d8 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -256,7 +256,7 @@ class Chunk(Sequence):
             try:
                 matching_val = getattr(otherchunk.actrchunk, x[0] + "_") #get the value of attr
             except AttributeError:
-                matching_val = None #if it is missing, it must be None
+                matching_val = self.__emptyvalue #if it is missing, it must be None (the empty value, just like an empty slot)
 
             if isinstance(matching_val, utilities.VarvalClass):
                 matching_val = matching_val.values #the value might be written using _variablesvalues namedtuple; in that case, get it out
-- 
2.43.0


From 74fa5aea926cca46ff2c6c3539d1b812ebfb81df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 02/58] fix: round the retrieval time as presentations are, so
 that a chunk added right now is not retrieved

---
 pyactr/declarative.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 17c5eea..a8e0520 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -187,6 +187,8 @@ class DecMemBuffer(buffers.Buffer):
         model_parameters = model_parameters.copy()
         model_parameters.update(self.model_parameters)
 
+        time = utilities.roundtime(time) #times of presentations are rounded in the same way (otherwise, a chunk added right now could appear as if it was added in the past)
+
         if actrvariables == None:
             actrvariables = {}
         try:
-- 
2.43.0


From b430bf8d9bc67b0a9be52981b9d3c94f67ef4213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 03/58] fix: actions following a delayed overwrite of a goal
 come after it instead of crashing the simulation

---
 pyactr/productions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 50cd31e..1d76434 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -588,7 +588,9 @@ class ProductionRules:
             if production.__name__ in self._INTERRUPTIBLE:
                 self.procs.append((submodule_name, production)) 
             else:
-                yield from production #this either moves production on to modify, retrieve etc. (see RHSCONVENTIONS for the list), or it appends that process to the processes that have to be done as an extra process by model, i.e., not directly by productions (distinction made as in ACT-R)
+                for event in production: #this either moves production on to modify, retrieve etc. (see RHSCONVENTIONS for the list), or it appends that process to the processes that have to be done as an extra process by model, i.e., not directly by productions (distinction made as in ACT-R)
+                    yield event
+                    time = max(time, event.time) #an action that takes time (e.g., overwriting a goal with delay) postpones the following ones
 
         #this last part is strict harvesting
         if self.model_parameters["strict_harvesting"]:
-- 
2.43.0


From 48a1896754cf106352f24051c0776ff987a47a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 04/58] fix: a tuple (or other hashable iterable) of chunks can
 be added to declarative memory

---
 pyactr/declarative.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index a8e0520..16b146d 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -82,22 +82,14 @@ class DecMem(collections.abc.MutableMapping):
 
         element can be either one chunk, or an iterable of chunks.
         """
+        if isinstance(element, chunks.Chunk):
+            element = [element]
         if isinstance(time, collections.abc.Iterable):
-            try:
-                new = np.concatenate((self.setdefault(element, np.array([])), np.array(time)))
-                self[element] = new
-            except TypeError:
-                for x in element:
-                    new = np.concatenate((self.setdefault(x, np.array([])), np.array(time)))
-                    self[x] = new
+            new_times = np.array(time)
         else:
-            try:
-                new = np.append(self.setdefault(element, np.array([])), round(float(time), 4))
-                self[element] = new
-            except TypeError:
-                for x in element:
-                    new = np.append(self.setdefault(x, np.array([])), round(float(time), 4))
-                    self[x] = new
+            new_times = round(float(time), 4)
+        for x in element:
+            self[x] = np.append(self.setdefault(x, np.array([])), new_times)
 
     def copy(self):
         """
-- 
2.43.0


From 7cc095bf65a9353ff4a7da7bb13b5a478764a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 05/58] fix: declarative memory can be created from a
 collection of chunks that have two slots

---
 pyactr/declarative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 16b146d..612379b 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -23,7 +23,7 @@ class DecMem(collections.abc.MutableMapping):
         if data is not None:
             try:
                 self.update(data)
-            except ValueError:
+            except (ValueError, utilities.ACTRError): #a collection of chunks; if they have exactly two slots, ACTRError is raised
                 self.update({x:0 for x in data})
 
     def __contains__(self, elem):
-- 
2.43.0


From 1ebc578b0eb2a310c3f72df643a89dedad395d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 06/58] fix: base-level learning ignores all presentations at
 the current moment instead of crashing on a second one (or on one with
 optimized learning)

---
 pyactr/utilities.py | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 3381c09..8bb3d14 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -6,7 +6,6 @@ import collections
 import collections.abc
 import re
 import math
-import warnings
 
 import numpy as np
 import pyparsing as pp
@@ -425,25 +424,12 @@ def baselevel_learning(current_time, times, bll, decay, activation=None, optimiz
     Calculate base-level learning: B_i = ln(sum(t_j^{-decay})) for t_j = current_time - t for t in times.
     """
     if bll:
+        times = times[times < current_time] #chunk storages at current time are left out (blocking simultaneous retrieval)
         if len(times) > 0:
-            with warnings.catch_warnings(record=True):
-                warnings.filterwarnings('error')
-                if not optimized_learning:
-                    try:
-                        B = math.log(np.sum((current_time - times) ** (-decay)))
-                    #this part removes chunk storages that are stored at current time (blocking simultaneous retrieval)
-                    except RuntimeWarning:
-                        temp_times = np.delete(times, times.argmax())
-                        if len(temp_times) > 0:
-                            B = math.log(np.sum((current_time - temp_times) ** (-decay)))
-                else:
-                    try:
-                        B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(times)) #calculating bll using optimized learning -- much faster since it's a single calculation
-                    #this part removes chunk storages that are stored at current time (blocking simultaneous retrieval)
-                    except RuntimeWarning:
-                        temp_times = np.delete(times, times.argmax())
-                        if len(temp_times) > 0:
-                            B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(temp_times)) #calculating bll using optimized learning -- much faster since it's a single calculation
+            if not optimized_learning:
+                B = math.log(np.sum((current_time - times) ** (-decay)))
+            else:
+                B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(times)) #calculating bll using optimized learning -- much faster since it's a single calculation
     else:
         B = 0
 
-- 
2.43.0


From 02b3d9881ee0a0b1009e09243fb60fba9cd1d773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:28 +0000
Subject: [PATCH 07/58] fix: optimized base-level learning uses the time since
 the creation of the chunk, as in ACT-R, not since its last presentation

---
 pyactr/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 8bb3d14..cd4b657 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -429,7 +429,7 @@ def baselevel_learning(current_time, times, bll, decay, activation=None, optimiz
             if not optimized_learning:
                 B = math.log(np.sum((current_time - times) ** (-decay)))
             else:
-                B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(times)) #calculating bll using optimized learning -- much faster since it's a single calculation
+                B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.min(times)) #calculating bll using optimized learning -- much faster since it's a single calculation
     else:
         B = 0
 
-- 
2.43.0


From 61f5f34fdb5ebe8b2ca8467319e9cb5ce7b8e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 08/58] fix: deleting a chunk from declarative memory updates
 the fan used in spreading activation

---
 pyactr/declarative.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 612379b..d05c816 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -31,6 +31,8 @@ class DecMem(collections.abc.MutableMapping):
     
     def __delitem__(self, key):
         del self._data[key]
+        self.restricted_number_chunks.clear() #the stored fans might have changed, they will be recalculated
+        self.unrestricted_number_chunks.clear()
 
     def __iter__(self):
         for elem in self._data:
-- 
2.43.0


From edb5bfcad54af4dec3b9645066ffe1130c33634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 09/58] fix: conflict resolution follows the current utilities,
 also after learning and compilation

---
 pyactr/productions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 1d76434..9ac1413 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -497,6 +497,9 @@ class ProductionRules:
         
         self.last_rule_slotvals = self.current_slotvals.copy()
 
+        if self.model_parameters["utility_learning"] or self.model_parameters["production_compilation"]:
+            self.ordered_rulenames = sorted((x for x in self.ordered_rulenames if x in self.rules), key=lambda x: self.rules[x]['utility'], reverse=True) #utilities might have changed or rules might have been added
+
         for rulename in self.ordered_rulenames:
             self.used_rulename = rulename
             production = self.rules[rulename]["rule"]()
-- 
2.43.0


From 0c943f382ba5f165d16a75ae0dc4d56292813d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 10/58] fix: preparation of a key press depends on the hand and
 the kind of movement of the previous key

---
 pyactr/productions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 9ac1413..158d990 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -913,8 +913,8 @@ class ProductionRules:
         if newchunk.key == motorbuffer.last_key[0] or self.model_parameters["motor_prepared"]:
             self.model_parameters["motor_prepared"] = False #motor_prepared is only used for the 1st key press
             preparation = 0
-        elif motorbuffer.last_key[0] and (newchunk.key in motorbuffer.PRESSING) == (motorbuffer.last_key[0] in motorbuffer.PRESSING):
-            if (newchunk.key in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0] in motorbuffer.LEFT_HAND): 
+        elif motorbuffer.last_key[0] and (newchunk.key.values in motorbuffer.PRESSING) == (motorbuffer.last_key[0].values in motorbuffer.PRESSING):
+            if (newchunk.key.values in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0].values in motorbuffer.LEFT_HAND): 
                 preparation -= 0.1 #the same hand, same mvt cuts down by 100 ms; Lisp ACT-R also has the same finger which cuts down by 150 ms; this is not currently implemented
             else:
                 preparation -= 0.05 #a different hand, same mvt cuts down by 50 ms
-- 
2.43.0


From 3821ed8572de42b82d6b63976e19b51f67f5c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:12 +0000
Subject: [PATCH 11/58] fix: a key press waits for all the earlier ones, the
 motor module is busy until the last of them is finished

---
 pyactr/productions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 158d990..aa53e61 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -964,9 +964,11 @@ class ProductionRules:
         yield Event(roundtime(time), name, 'MOVEMENT FINISHED')
         
         self.env_interaction.discard(otherchunk.key)
-        motorbuffer.state = motorbuffer._FREE
-        motorbuffer.execution = motorbuffer._FREE
-        motorbuffer.last_key[1] = 0
+        if motorbuffer.last_key[1] <= time: #otherwise, another movement is already waiting to be executed or is executed
+            motorbuffer.last_key[1] = 0
+            motorbuffer.execution = motorbuffer._FREE
+            if motorbuffer.preparation == motorbuffer._FREE:
+                motorbuffer.state = motorbuffer._FREE
 
     def LHStest(self, dictionary, actrvariables, update=False):
         """
-- 
2.43.0


From 682e22d522abe777b3dac919753d1dae4539d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 12/58] fix: motor_prepared is not switched off in the
 parameters of the model by running a simulation

---
 pyactr/productions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index aa53e61..ce00d28 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -910,8 +910,7 @@ class ProductionRules:
         preparation = time_presses[0]
 
         #preparation can be modified if previous key was the same or similar -- see if-clauses below
-        if newchunk.key == motorbuffer.last_key[0] or self.model_parameters["motor_prepared"]:
-            self.model_parameters["motor_prepared"] = False #motor_prepared is only used for the 1st key press
+        if newchunk.key == motorbuffer.last_key[0] or (self.model_parameters["motor_prepared"] and not motorbuffer.last_key[0]): #motor_prepared is only used for the 1st key press
             preparation = 0
         elif motorbuffer.last_key[0] and (newchunk.key.values in motorbuffer.PRESSING) == (motorbuffer.last_key[0].values in motorbuffer.PRESSING):
             if (newchunk.key.values in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0].values in motorbuffer.LEFT_HAND): 
-- 
2.43.0


From a521f342b91815f5cbcb11260bb034392cc4841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 13/58] fix: a trigger key pressed again, at the moment the
 stimulus runs out or after the last one does not crash the simulation

---
 pyactr/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 9460268..9ffb64e 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -107,7 +107,8 @@ class Simulation:
             yield pro | self.__environment_activate
             if self.__environment_activate.triggered:
                 self.__environment_activate = self.__simulation.event()
-                pro.interrupt()
+                if pro.is_alive:
+                    pro.interrupt()
             try:
                 event = next(generator)
             except StopIteration:
@@ -201,7 +202,7 @@ class Simulation:
                 self.__printevent__(event)
                 self.__activate__(event)
             try:
-                if self.__env.trigger and self.__pr.env_interaction.intersection(self.__env.trigger):
+                if self.__env.trigger and self.__pr.env_interaction.intersection(self.__env.trigger) and not self.__environment_activate.triggered:
                     self.__environment_activate.succeed(value=(self.__env.trigger, self.__pr.env_interaction))
                 self.__pr.env_interaction = set()
             except AttributeError:
-- 
2.43.0


From 70af2c0a00d59ade73204eea14769676b7b445ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 14/58] fix: environment with a positive start_time does not
 crash the simulation

---
 pyactr/environment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/environment.py b/pyactr/environment.py
index 44e0ae9..d6012d4 100644
--- a/pyactr/environment.py
+++ b/pyactr/environment.py
@@ -78,8 +78,8 @@ class Environment:
         (Use this key with caution: visual_location searches cannot return an object if it contains
         an externally-visible attribute that is not present in the search)
         """
-        #subtract start_time from initial_time
-        start_time = self.initial_time - start_time
+        #start_time is relative to initial_time
+        start_time = self.initial_time + start_time
         #make all arguments iterables if they are not yet
         if isinstance(stimuli, str) or isinstance(stimuli, collections.abc.Mapping) or not isinstance(stimuli, collections.abc.Iterable):
             stimuli = [stimuli]
-- 
2.43.0


From 682daef4780d227bd075615c2d35d8fe95d2dd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 15/58] fix: a variable whose name has several letters is not
 taken for the variables named by its letters when chunks are compared

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 18533d8..f409f24 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -186,7 +186,7 @@ class Chunk(Sequence):
                 temp_varval = {"values": set(), "negvalues": set()}
                 for key in ["variables", "negvariables"]:
                     if getattr(varval, key):
-                        for value in getattr(varval, key):
+                        for value in (varval.variables,) if key == "variables" else varval.negvariables: #variables is just one name, negvariables is a tuple of names
                             try:
                                 temp_varval[re.sub("variables", "values", key)].add(self.boundvars[utilities.ACTRVARIABLE + value]) #add (neg)value based on the (neg)variable
                             except KeyError:
-- 
2.43.0


From fbe18884bfc1ac865d07b7d178a43ee5ac7a006c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 16/58] fix: visual location search remembers as attended the
 stimulus it found, not another one that was rejected

---
 pyactr/vision.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 5e7a2bd..1f675e8 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -194,10 +194,10 @@ class VisualLocation(buffers.Buffer):
             except (TypeError, AttributeError):
                 pass
 
-            found_stim = self.environment.stimulus[each]
-            visible_chunk = chunk_from_stimulus(found_stim, "visual_location", position=False)
+            visible_chunk = chunk_from_stimulus(self.environment.stimulus[each], "visual_location", position=False)
 
             if visible_chunk <= chunk_used_for_search:
+                found_stim = self.environment.stimulus[each]
                 found = chunk_from_stimulus(found_stim, "visual_location", position=True)
                 current_x = position[0]
                 current_y = position[1]
-- 
2.43.0


From 12578a1bda1094310a5004d418a0574ba480e003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 17/58] fix: the visual location module is free again after
 automatic search

---
 pyactr/productions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index ce00d28..d4614cd 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -807,8 +807,10 @@ class ProductionRules:
                 visualbuffer.modify(newchunk, stim)
             else:
                 visualbuffer.add(newchunk, stim, time)
+            visualbuffer.state = visualbuffer._FREE
             yield Event(roundtime(time), name, f"ENCODED LOCATION: {newchunk}")
         else:
+            visualbuffer.state = visualbuffer._FREE
             yield Event(roundtime(time), name, self._UNKNOWN)
 
     def automatic_buffering(self, name, visualbuffer, stim, time):
-- 
2.43.0


From 0cedc80fac524e402bd3651d53c960d8db938b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 18/58] fix: the visual buffer is cleared when the new object
 is encoded, not at the start of the shift of attention

---
 pyactr/productions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index d4614cd..cf1ec05 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -717,6 +717,7 @@ class ProductionRules:
         """
         visualbuffer.state = visualbuffer._BUSY
         time += extra_time
+        yield Event(roundtime(time), name, self._UNKNOWN)
         visualbuffer.current_focus = site #use it if visual focus is fully attention-based (internal) and not based on eye position; site is the position of attention
         yield from self.clear(name, visualbuffer, None, temp_actrvariables, time, freeing=False)
         visualbuffer.add(chunk, time)
-- 
2.43.0


From b09c23bca2554091f83aeb9c851cddd5d6854ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 19/58] fix: shifting attention to a position at which nothing
 is displayed is an error of the visual module, not a crash; positions may be
 lists and need not be whole numbers

---
 pyactr/productions.py | 11 ++++++++++-
 pyactr/vision.py      |  6 +++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index cf1ec05..c6593b0 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -845,6 +845,11 @@ class ProductionRules:
         """
         newchunk, extra_time, site = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters)
 
+        if not newchunk: #there is nothing to attend to at that position
+            visualbuffer.state = visualbuffer._ERROR
+            yield Event(roundtime(time), name, "ENCODED VIS OBJECT:'None'")
+            return
+
         encoding = extra_time[0]
         preparation = extra_time[1]
         execution = extra_time[2]
@@ -889,11 +894,15 @@ class ProductionRules:
         yield Event(roundtime(time), name, f"SHIFT COMPLETE TO POSITION: {str(visualbuffer.current_focus)}")
         if encoding > preparation+execution:
             newchunk, extra_time, _ = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters)
-            yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site)
+            if newchunk:
+                yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site)
         visualbuffer.processor = visualbuffer._FREE
         visualbuffer.execution = visualbuffer._FREE
         visualbuffer.state = visualbuffer._FREE
         visualbuffer.attend_automatic = True
+        if encoding > preparation+execution and not newchunk: #the object disappeared before it was encoded
+            visualbuffer.state = visualbuffer._ERROR
+            yield Event(roundtime(time), name, "ENCODED VIS OBJECT:'None'")
         #the following lines - if we think that automatic buffering should be repeated after being done with shift
         #if visualbuffer.attend_automatic:
         #    yield from self.automatic_buffering(name, visualbuffer, list(visualbuffer.environment.stimulus.values()), time)
diff --git a/pyactr/vision.py b/pyactr/vision.py
index 1f675e8..65cc05c 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -333,16 +333,20 @@ class Visual(buffers.Buffer):
             raise ACTRError(f"Shifting towards the chunk '{otherchunk}' is impossible; {arg}")
 
         vis_delay = None
+        stim = None
 
         for each in self.environment.stimulus:
             try:
-                if self.environment.stimulus[each]['position'] == (float(mod_attr_val['screen_pos'].values.screen_x.values), float(mod_attr_val['screen_pos'].values.screen_y.values)):
+                if (int(self.environment.stimulus[each]['position'][0]), int(self.environment.stimulus[each]['position'][1])) == (float(mod_attr_val['screen_pos'].values.screen_x.values), float(mod_attr_val['screen_pos'].values.screen_y.values)):
                     vis_delay = self.environment.stimulus[each].get('vis_delay')
                     stim = self.environment.stimulus[each].copy()
                     stim.update({'cmd': mod_attr_val['cmd']})
             except (AttributeError, KeyError):
                 raise ACTRError("The chunk in the visual buffer is not defined correctly. It is not possible to move attention.")
 
+        if stim is None: #there is nothing (any more) at that position
+            return None, (0, 0, 0), None
+
         new_chunk = chunk_from_stimulus(stim, "visual", position=False) #creates new chunk
 
         if model_parameters['emma']:
-- 
2.43.0


From 9a90f4aa44398d08172d15df876b78991c91d905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 20/58] fix: visual search before the first stimulus is
 displayed, or among stimuli without text, does not crash

---
 pyactr/productions.py | 2 +-
 pyactr/vision.py      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index c6593b0..2412b63 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -826,7 +826,7 @@ class ProductionRules:
         encoding = 0
         for st in stim:
             if st['position'][0] > cf[0]-foveal_distance and st['position'][0] < cf[0]+foveal_distance and st['position'][1] > cf[1]-foveal_distance and st['position'][1] < cf[1]+foveal_distance:
-                if (not visualbuffer) or list(visualbuffer)[0].value.values != st['text']: #automatic buffer only of there is sth to buffer
+                if (not visualbuffer) or list(visualbuffer)[0].value.values != st.get('text', ''): #automatic buffer only of there is sth to buffer
                     newchunk, encoding = visualbuffer.automatic_buffering(st, self.model_parameters)
         time += encoding
         yield Event(roundtime(time), name, self._UNKNOWN)
diff --git a/pyactr/vision.py b/pyactr/vision.py
index 65cc05c..64e1baa 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -108,7 +108,7 @@ class VisualLocation(buffers.Buffer):
         y_closest = float("inf")
         current_x = None
         current_y = None
-        for each in self.environment.stimulus:
+        for each in self.environment.stimulus or {}: #nothing is displayed before the environment starts
 
             #extra test applied first
             try:
@@ -123,7 +123,7 @@ class VisualLocation(buffers.Buffer):
                 pass
 
             #check value in text; in principle, you can search based on any value, so this is more powerful than actual visual search
-            if chunk_used_for_search.value != chunk_used_for_search.EmptyValue() and chunk_used_for_search.value.values != self.environment.stimulus[each]["text"]:
+            if chunk_used_for_search.value != chunk_used_for_search.EmptyValue() and chunk_used_for_search.value.values != self.environment.stimulus[each].get("text", ""):
                 continue
 
             position = (int(self.environment.stimulus[each]['position'][0]), int(self.environment.stimulus[each]['position'][1]))
@@ -335,7 +335,7 @@ class Visual(buffers.Buffer):
         vis_delay = None
         stim = None
 
-        for each in self.environment.stimulus:
+        for each in self.environment.stimulus or {}:
             try:
                 if (int(self.environment.stimulus[each]['position'][0]), int(self.environment.stimulus[each]['position'][1])) == (float(mod_attr_val['screen_pos'].values.screen_x.values), float(mod_attr_val['screen_pos'].values.screen_y.values)):
                     vis_delay = self.environment.stimulus[each].get('vis_delay')
-- 
2.43.0


From 742de73e3625bb4fe2c17657e7e3678809a589eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 21/58] fix: a relative position can be given by a variable in
 visual location search (<=x, >=x); a negated unbound variable is reported as
 such

---
 pyactr/utilities.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index cd4b657..7647f30 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -267,6 +267,7 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
     neg_result = set()
     varval = splitting(elem)
     for x in varval._fields:
+        temp_result = None
         if x == "variables" and getattr(varval, x):
             var = getattr(varval, x)
             var = "".join([ACTRVARIABLE, var])
@@ -292,22 +293,16 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
                     try:
                         neg_result.add(actrvariables[neg_var])
                     except KeyError:
-                        raise ACTRError(f"Object '{var[1:]}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
+                        raise ACTRError(f"Object '{neg_var[1:]}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
+        if temp_result is None: #this field does not specify any value
+            continue
         if result and temp_result in {VISIONGREATER, VISIONSMALLER} or result in {VISIONGREATER, VISIONSMALLER}:
             result = "".join(sorted([temp_result, result], reverse=True))
         elif result and temp_result != result:
             raise ACTRError(f"It looks like in '{elem}', one slot would have to carry two values at the same time; this is illegal in ACT-R")
         else:
-            try:
-                result = temp_result
-            except UnboundLocalError: #temp_result wasn't used
-                pass
-    try:
-        if temp_result:
-            returned_tuple = VarvalClass(variables=None, values=result, negvariables=(), negvalues=tuple(neg_result))
-    except UnboundLocalError: #temp_result was never used, which means that no values were defined
-        returned_tuple = VarvalClass(variables=None, values=None, negvariables=(), negvalues=tuple(neg_result))
-    return returned_tuple
+            result = temp_result
+    return VarvalClass(variables=None, values=result, negvariables=(), negvalues=tuple(neg_result))
 
 def match(dict2, slotvals, name1, name2):
     """
-- 
2.43.0


From fb7df36b7ae70f56a9f9eede3c9bff30691ced99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 22/58] fix: negated values in visual location search exclude
 these values, instead of being ignored or excluding everything

---
 pyactr/vision.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 64e1baa..da96a7d 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -123,8 +123,12 @@ class VisualLocation(buffers.Buffer):
                 pass
 
             #check value in text; in principle, you can search based on any value, so this is more powerful than actual visual search
-            if chunk_used_for_search.value != chunk_used_for_search.EmptyValue() and chunk_used_for_search.value.values != self.environment.stimulus[each].get("text", ""):
-                continue
+            if chunk_used_for_search.value != chunk_used_for_search.EmptyValue():
+                text = self.environment.stimulus[each].get("text", "")
+                if chunk_used_for_search.value.values is not None and chunk_used_for_search.value.values != text:
+                    continue
+                if text in chunk_used_for_search.value.negvalues:
+                    continue
 
             position = (int(self.environment.stimulus[each]['position'][0]), int(self.environment.stimulus[each]['position'][1]))
 
@@ -140,6 +144,10 @@ class VisualLocation(buffers.Buffer):
             except (TypeError, ValueError, AttributeError):
                 pass
 
+            #check on negated positions
+            if any(str(coordinate) in getattr(searched, "negvalues", ()) for coordinate, searched in zip(position, (chunk_used_for_search.screen_x, chunk_used_for_search.screen_y))):
+                continue
+
             #check on x and y relative positions
             try: 
                 if chunk_used_for_search.screen_x.values[0] == utilities.VISIONSMALLER and int(chunk_used_for_search.screen_x.values[1:]) <= position[0]:
-- 
2.43.0


From 3b1e1288532f4db0315594d92dac376f790c274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 23/58] fix: visual location search respects 'closest' when it
 is given only for screen_y

---
 pyactr/vision.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index da96a7d..3bb9a60 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -184,7 +184,7 @@ class VisualLocation(buffers.Buffer):
 
             #check on closest
             try: 
-                if (chunk_used_for_search.screen_x.values == utilities.VISIONCLOSEST or chunk_used_for_search.screen_y.values == utilities.VISIONCLOSEST) and utilities.calculate_pythagorean_distance(self.environment.current_focus, position) > closest:
+                if utilities.VISIONCLOSEST in (getattr(chunk_used_for_search.screen_x, "values", None), getattr(chunk_used_for_search.screen_y, "values", None)) and utilities.calculate_pythagorean_distance(self.environment.current_focus, position) > closest:
                     continue
             except (TypeError, AttributeError):
                 pass
-- 
2.43.0


From 93a981ec14b1427cbfec22bb598f345af60d17fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 24/58] fix: a compiled rule applies exactly where the two
 rules would fire one after the other and has the same effect

Negations tested by the first rule do not end up on the right-hand side of the compiled rule (which crashed),
values that the first rule puts in slots are not required before it fires, tests of the second rule are not lost,
variables are identified transitively, and a new chunk does not inherit slots from the chunk that it replaces.
---
 pyactr/productions.py | 108 ++++++++++++++++++++++++++----------------
 pyactr/utilities.py   |  59 +++++++++++++----------
 2 files changed, 103 insertions(+), 64 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 2412b63..131c55a 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -129,6 +129,23 @@ class Productions(collections.UserDict):
             pro1 = next(production1).copy()
             pro2 = next(production2).copy()
 
+            temp_production1 = rule1['rule']()
+            tested_buffers = {key[1:] for key in next(temp_production1) if utilities._LHSCONVENTIONS[key[0]] == "test"}
+            #buffers in which rule1 puts a chunk regardless of what is in them, and the sign by which it does so
+            set_buffers = {key[1:]: key[0] for key in next(temp_production1) if utilities._RHSCONVENTIONS[key[0]] in {"retrieveorset", "overwrite"} and key[1:] not in tested_buffers}
+
+            negated = [] #what rule1 put in a slot and what rule2 tests in that slot
+
+            def test_in_rule1(buff, slot, pro2slot):
+                """
+                Return the part of the test on slot in rule2 that has to be checked before rule1 fires. If rule1 determines what is in the slot, the variables of the two rules were already matched and only negations are left.
+                """
+                determined = utilities.splitting((slotvals.get(buff) or {}).get(slot))
+                if determined.values or determined.variables:
+                    negated.append((determined, utilities.splitting(pro2slot)))
+                    return None
+                return pro2slot
+
             for key in pro1:
 
                 code = key[0]
@@ -144,27 +161,13 @@ class Productions(collections.UserDict):
 
                 pro2buff = pro2.pop(key)._asdict()
                 
-                pro1buff = pro1[key]._asdict()
+                mod_attr_val = pro1[key]._asdict()
                 
-                mod_attr_val = {}
-
-                if buff in slotvals:
-                    for slot in pro2buff:
-                        try:
-                            slotvals_slot = slotvals[buff][slot].removeunused()
-                        except (KeyError, AttributeError, TypeError):
-                            slotvals_slot = None
-                        if not slotvals_slot:
-                            varval = utilities.merge_chunkparts(pro1buff[slot], pro2buff[slot])
-                            mod_attr_val[slot] = varval
-                        else:
-                            mod_attr_val[slot] = pro1buff[slot]
-                elif buff == retrieval:
+                if buff not in slotvals and buff == retrieval:
                     continue #test on retrieved elem from rule1 in rule2 is removed because no retrieval
-                else:
-                    for slot in pro2buff:
-                        varval = utilities.merge_chunkparts(pro1buff[slot], pro2buff[slot])
-                        mod_attr_val[slot] = varval
+
+                for slot in pro2buff:
+                    mod_attr_val[slot] = utilities.merge_chunkparts(mod_attr_val.get(slot), test_in_rule1(buff, slot, pro2buff[slot]))
 
                 new_chunk = chunks.Chunk(pro1[key].typename, **mod_attr_val)
                 pro1[key] = new_chunk
@@ -189,29 +192,41 @@ class Productions(collections.UserDict):
                 
                 mod_attr_val = {}
                 
-                if buff in slotvals:
-                    for slot in pro2buff:
-                        try:
-                            slotvals_slot = slotvals[buff][slot].removeunused()
-                        except (KeyError, AttributeError, TypeError):
-                            slotvals_slot = None
-                        if not slotvals_slot:
-                            mod_attr_val[slot] = pro2buff[slot]
-                elif buff == retrieval:
+                if buff not in slotvals and buff == retrieval:
                     continue #test on retrieved elem from rule1 in rule2 is removed because no retrieval
-                else:
-                    mod_attr_val = pro2buff.copy()
+
+                for slot in pro2buff:
+                    mod_attr_val[slot] = utilities.merge_chunkparts(None, test_in_rule1(buff, slot, pro2buff[slot]))
+
+                if buff in set_buffers:
+                    continue #the chunk is put there by rule1, there might be none before
 
                 new_chunk = chunks.Chunk(pro2[key].typename, **mod_attr_val)
                 pro1[key] = new_chunk
 
+            #negations in rule2 on what rule1 put in slots -- checked on the variables where they are bound
+            for determined, tested in negated:
+                additional = {}
+                if determined.variables:
+                    additional[determined.variables] = (tested.negvalues, tested.negvariables)
+                else:
+                    additional.update({x: ((determined.values,), ()) for x in tested.negvariables})
+                for key in pro1:
+                    if utilities._LHSCONVENTIONS[key[0]] == "query":
+                        continue
+                    mod_attr_val = pro1[key]._asdict()
+                    for slot in mod_attr_val:
+                        negvalues, negvariables = additional.get(utilities.splitting(mod_attr_val[slot]).variables, ((), ()))
+                        mod_attr_val[slot] = utilities.merge_chunkparts(mod_attr_val[slot], utilities.VarvalClass(variables=None, values=None, negvariables=negvariables, negvalues=negvalues))
+                    pro1[key] = chunks.Chunk(pro1[key].typename, **mod_attr_val)
+
             yield pro1
 
             pro1 = next(production1).copy()
             pro2 = next(production2).copy()
             
             #anything in pro2 should go into action
-            for key in pro2:
+            for key in list(pro2):
 
                 code = key[0]
                 buff = key[1:]
@@ -222,6 +237,9 @@ class Productions(collections.UserDict):
                 if buff not in slotvals:
                     continue
 
+                if utilities._RHSCONVENTIONS[code] not in {"modify", "modify_request"}:
+                    continue #a new chunk in the buffer, nothing is left of what rule1 did there
+
                 pro1buff = slotvals[buff]
                 
                 pro2buff = pro2[key]._asdict()
@@ -230,13 +248,13 @@ class Productions(collections.UserDict):
                 
                 for slot in pro2buff:
                     if pro1buff and slot in pro1buff:
-                        varval = utilities.merge_chunkparts(pro2buff[slot], pro1buff[slot])
+                        varval = utilities.merge_assigned_chunkparts(pro2buff[slot], pro1buff[slot])
                         mod_attr_val[slot] = varval
                     else:
                         mod_attr_val[slot] = pro2buff[slot]
 
-                new_chunk = chunks.Chunk(pro2[key].typename, **mod_attr_val)
-                pro2[key] = new_chunk
+                new_chunk = chunks.Chunk(pro2.pop(key).typename, **mod_attr_val)
+                pro2[set_buffers.get(buff, code) + buff] = new_chunk
 
             #actions in pro1 here below -- buffers might be in pro1 that are missing in pro2
             for key in pro1:
@@ -402,6 +420,13 @@ class Productions(collections.UserDict):
                             if var != None:
                                 modified_actrvariables.add(var)
 
+        #buffers tested but not changed by rule_name1 carry what was tested
+        tested_by_1rule = next(self[rule_name1]['rule']())
+        for buff in slotvals:
+            key = utilities._LHSCONVENTIONS_REVERSED["test"] + buff
+            if slotvals[buff] is None and key in tested_by_1rule:
+                slotvals[buff] = tested_by_1rule[key]._asdict()
+
         new_2rule = self.__rename__(rule_name2, modified_actrvariables) #rename all variables in rule_name2 to avoid var clashes
 
         production2 = new_2rule['rule']()
@@ -692,6 +717,13 @@ class ProductionRules:
         modified.state = modified._FREE
         yield Event(roundtime(time), name, "MODIFIED")
 
+    def __allslots__(self, chunk):
+        """
+        Return the slot-values of a chunk that is put in a buffer. Slots that are not used are empty.
+        """
+        empty = utilities.VarvalClass(variables=None, values=str(utilities.EMPTYVALUE), negvariables=(), negvalues=())
+        return {slot: empty if val == chunks.Chunk.EmptyValue() else val for slot, val in chunk._asdict().items()}
+
     def overwrite(self, name, updated, otherchunk, temp_actrvariables, time):
         """
         Overwrite a buffer.
@@ -701,9 +733,7 @@ class ProductionRules:
         time += extra_time
         yield Event(roundtime(time), name, self._UNKNOWN)
         if self.model_parameters['production_compilation']:
-            RHSdict = otherchunk._asdict()
-            RHSdict = {item[0]: item[1] for item in RHSdict.items()} 
-            self.current_slotvals[name] = RHSdict
+            self.current_slotvals[name] = self.__allslots__(otherchunk)
 
         updated.create(otherchunk, list(self.dm.values())[0], temp_actrvariables)
 
@@ -735,9 +765,7 @@ class ProductionRules:
             time += extra_time
             yield Event(roundtime(time), name, self._UNKNOWN)
             if self.model_parameters['production_compilation']:
-                RHSdict = otherchunk._asdict()
-                RHSdict = {item[0]: item[1] for item in RHSdict.items()}
-                self.current_slotvals[name] = RHSdict
+                self.current_slotvals[name] = self.__allslots__(otherchunk)
 
             updated.create(otherchunk, list(self.dm.values())[0], temp_actrvariables)
             created_elem = list(updated)[0]
diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 7647f30..038fbcf 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -233,15 +233,21 @@ def merge_chunkparts(chunkpart1, chunkpart2):
     """
     varval1 = splitting(chunkpart1)
     varval2 = splitting(chunkpart2)
-    for x in varval1:
-        if x:
-            break
-    else:
-        varval1 = varval2
 
-    new_varval = VarvalClass(variables=varval1.variables, values=varval1.values, negvariables=varval1.negvariables, negvalues=varval1.negvalues)
+    return VarvalClass(variables=varval1.variables or varval2.variables, values=varval1.values or varval2.values,\
+            negvariables=tuple(dict.fromkeys(tuple(varval1.negvariables) + tuple(varval2.negvariables))),\
+            negvalues=tuple(dict.fromkeys(tuple(varval1.negvalues) + tuple(varval2.negvalues))))
 
-    return new_varval
+def merge_assigned_chunkparts(chunkpart1, chunkpart2):
+    """
+    Merge two chunk parts of the right-hand side of rules. chunkpart1 is used if it assigns anything, otherwise the value or variable in chunkpart2 is.
+    """
+    varval1 = splitting(chunkpart1)
+    varval2 = splitting(chunkpart2)
+    if any(varval1):
+        return varval1
+
+    return VarvalClass(variables=varval2.variables, values=varval2.values, negvariables=(), negvalues=())
 
 #############utilities for rules######################################
 
@@ -308,24 +314,22 @@ def match(dict2, slotvals, name1, name2):
     """
     Match variables that happen to be tied to the same slots. This function is used in production compilation. dict2 is the LHS of the second rule, slotvals is the dictionary based on the output of the first rule.
     """
+    identical = [] #list of pairs: set of variables that stand for the same thing, and the value of these variables (possibly, None)
+
     def temp_func(temp_set, temp_val):
         """
-        temp_func gets a set of variables and a value (possibly, None), and it returns two dicts.
-        matched stores which variables will be substituted by which variable, valued stores which variables will be substituted by a value (if temp_val not empty).
+        temp_func gets a set of variables and a value (possibly, None), and it adds them to identical. If any variable is already present there, the two sets stand for the same thing.
         """
-        if temp_val:
-            valued.update({x: temp_val for x in temp_set})
-        else:
-            try:
-                temp_var = sorted(temp_set, key=lambda x:len(x))[0]
-            except IndexError:
-                pass
-            else:
-                matched.update({x: temp_var for x in temp_set})
-        return matched, valued
-
-    matched = {}
-    valued = {}
+        for each in identical.copy():
+            if temp_set & each[0]:
+                identical.remove(each)
+                temp_set = temp_set | each[0]
+                temp_val = temp_val or each[1]
+        if temp_set:
+            identical.append((temp_set, temp_val))
+
+    matched = {} #stores which variables will be substituted by which variable
+    valued = {} #stores which variables will be substituted by a value
     temp_slotvals = slotvals.copy()
     for key in dict2:
 
@@ -361,7 +365,7 @@ def match(dict2, slotvals, name1, name2):
                         temp_set.update(set([chunkpart2.variables]))
                     if chunkpart3.variables:
                         temp_set.update(set([chunkpart3.variables]))
-                    matched, valued = temp_func(temp_set, temp_val)
+                    temp_func(temp_set, temp_val)
                 slotvals.pop(buff) #info about retrieved element has been fully used, it can be discarded now
             else: #anything else but retrieval is here
                 for elem in chunkdict2:
@@ -387,7 +391,14 @@ def match(dict2, slotvals, name1, name2):
             
                     temp_val = val2 or val3
 
-                    matched, valued = temp_func(temp_set, temp_val)
+                    temp_func(temp_set, temp_val)
+
+    for temp_set, temp_val in identical:
+        if temp_val:
+            valued.update({x: temp_val for x in temp_set})
+        else:
+            temp_var = sorted(temp_set, key=lambda x: (len(x), x))[0]
+            matched.update({x: temp_var for x in temp_set})
 
     return matched, valued
             
-- 
2.43.0


From 012c46516347541d1bc55fce7f8d04028839bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 25/58] fix: the last two rules are compiled at the end of run,
 as they are when stepping through the simulation

---
 pyactr/simulation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 9ffb64e..0ca0dd5 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -257,10 +257,14 @@ class Simulation:
         Run simulation for the number of seconds specified in max_time.
         """
         if not self.gui:
+            while self.__simulation.peek() < max_time:
+                self.__simulation.step()
+            finished = self.__simulation.peek() == float("inf") #has to be checked before the call of run, which might leave its own event in the schedule
             self.__simulation.run(max_time)
         else:
             self.__runGUI__()
-        if self.__simulation.peek() == float("inf"):
+            finished = self.__simulation.peek() == float("inf")
+        if finished:
             self.__pr.compile_rules() #at the end of the simulation, run compilation (the last two rules are not yet compiled)
     
     def show_time(self):
-- 
2.43.0


From 98c8e40dfd93ea0de09d7adc28a50d0e6330ecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 26/58] fix: a compiled rule that is re-created competes in
 conflict resolution once, and is not re-created repeatedly for one firing

---
 pyactr/productions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 131c55a..b26bc76 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -583,7 +583,8 @@ class ProductionRules:
         """
         if self.model_parameters["production_compilation"] and self.compile:
             compiled_rulename, re_created = self.rules.compile_rules(self.compile[0], self.compile[1], self.compile[2], self.buffers, self.model_parameters)
-            if compiled_rulename:
+            self.compile = [] #compiled only once
+            if compiled_rulename and compiled_rulename not in self.ordered_rulenames:
                 self.ordered_rulenames.append(compiled_rulename)
             return compiled_rulename, re_created
         else:
-- 
2.43.0


From baf0fe4e451368509e66ab9e85ba97be7fa88c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 27/58] fix: compiling a compiled rule with another one keeps
 the variables that it tests in slots which it does not change

---
 pyactr/productions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index b26bc76..6ef0214 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -678,7 +678,7 @@ class ProductionRules:
         modified.state = modified._BUSY
         if self.model_parameters['production_compilation']:
             RHSdict = otherchunk._asdict()
-            RHSdict = {item[0]: item[1] for item in RHSdict.items() if item[1] != chunks.Chunk.EmptyValue()} #delete None values, they will be copied from LHSdict
+            RHSdict = {item[0]: item[1] for item in RHSdict.items() if any(utilities.splitting(item[1]))} #delete None values, they will be copied from LHSdict
             production = self.rules[self.used_rulename]["rule"]()
             code = utilities._LHSCONVENTIONS_REVERSED["test"]
             try:
@@ -703,7 +703,7 @@ class ProductionRules:
         yield Event(roundtime(time), name, self._UNKNOWN)
         if self.model_parameters['production_compilation']:
             RHSdict = otherchunk._asdict()
-            RHSdict = {item[0]: item[1] for item in RHSdict.items() if item[1] != chunks.Chunk.EmptyValue()} #delete None values, they will be copied from LHSdict
+            RHSdict = {item[0]: item[1] for item in RHSdict.items() if any(utilities.splitting(item[1]))} #delete None values, they will be copied from LHSdict
             production = self.rules[self.used_rulename]["rule"]()
             code = utilities._LHSCONVENTIONS_REVERSED["test"]
             try:
@@ -819,7 +819,7 @@ class ProductionRules:
 
         if self.model_parameters['production_compilation']:
             RHSdict = otherchunk._asdict()
-            RHSdict = {item[0]: item[1] for item in RHSdict.items() if item[1] != chunks.Chunk.EmptyValue()} #delete None values
+            RHSdict = {item[0]: item[1] for item in RHSdict.items() if any(utilities.splitting(item[1]))} #delete None values
             self.current_slotvals[name] = [RHSdict, retrieved_elem]
 
         yield Event(roundtime(time), name, f"RETRIEVED: {str(retrieved_elem)}")
-- 
2.43.0


From 040256114b5add54b0ca1900ca40abf5774d803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:02 +0000
Subject: [PATCH 28/58] fix: a buffer that the second rule harvests is empty
 after the compiled rule, too

---
 pyactr/productions.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 6ef0214..18b976c 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -118,7 +118,7 @@ class Productions(collections.UserDict):
         else:
             self.rules[key] = Production(rule=value["rule"], utility=self.__DFT_UTILITY, reward=self.__DFT_REWARD)
 
-    def __collapse__(self, rule1, rule2, slotvals, retrieval):
+    def __collapse__(self, rule1, rule2, slotvals, retrieval, strict_harvesting):
         """
         Collapses 2 rules into 1.
         """
@@ -256,6 +256,12 @@ class Productions(collections.UserDict):
                 new_chunk = chunks.Chunk(pro2.pop(key).typename, **mod_attr_val)
                 pro2[set_buffers.get(buff, code) + buff] = new_chunk
 
+            #buffers that are cleared by strict harvesting in rule2
+            harvested_buffers = set()
+            if strict_harvesting:
+                temp_production2 = rule2['rule']()
+                harvested_buffers = {key[1:] for key in next(temp_production2) if utilities._LHSCONVENTIONS[key[0]] == "test"}.difference({key[1:] for key in pro2})
+
             #actions in pro1 here below -- buffers might be in pro1 that are missing in pro2
             for key in pro1:
                 
@@ -277,13 +283,20 @@ class Productions(collections.UserDict):
                     pro2[key] = pro1[key]
                     continue
 
-                pro1buff = pro1[key]._asdict()
+                if buff in harvested_buffers:
+                    pro2[utilities._RHSCONVENTIONS_REVERSED["clear"] + buff] = None #the chunk that rule1 changes or puts in the buffer is gone after rule2
+                    if utilities._RHSCONVENTIONS[code] == "retrieveorset":
+                        continue
+                    elif utilities._RHSCONVENTIONS[code] == "modify_request":
+                        key = utilities._RHSCONVENTIONS_REVERSED["modify"] + buff
+
+                pro1buff = pro1[code + buff]._asdict()
                 
                 mod_attr_val = {}
                 for slot in pro1buff:
                     mod_attr_val[slot] = pro1buff[slot]
 
-                new_chunk = chunks.Chunk(pro1[key].typename, **mod_attr_val)
+                new_chunk = chunks.Chunk(pro1[code + buff].typename, **mod_attr_val)
                 pro2[key] = new_chunk
 
             yield pro2
@@ -447,7 +460,7 @@ class Productions(collections.UserDict):
                     mod_attr_val[elem] = varval
                 slotvals[buff] = mod_attr_val
 
-        new_rule = self.__collapse__(new_1rule, new_2rule, slotvals, retrieval)
+        new_rule = self.__collapse__(new_1rule, new_2rule, slotvals, retrieval, model_parameters["strict_harvesting"])
         
         idx = 0
         re_created = "CREATED"
-- 
2.43.0


From 50d49416edc4e2c72a32fc19be3d775a40f19bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 29/58] fix: a real-time simulation starts at initial_time

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 0ca0dd5..d989576 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -51,7 +51,7 @@ class Simulation:
         self.__realtime = realtime
 
         if not self.gui and realtime:
-            self.__simulation = simpy.RealtimeEnvironment()
+            self.__simulation = simpy.RealtimeEnvironment(initial_time=round(initial_time, 4))
 
         self.__trace = trace
 
-- 
2.43.0


From cba6de5ae19af4a2254c51829a813d8c0d3b3039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 30/58] fix: a rule can modify the visual location buffer using
 its variables, which is not taken for finding a stimulus

---
 pyactr/productions.py | 2 +-
 pyactr/vision.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 18b976c..7880a58 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -847,7 +847,7 @@ class ProductionRules:
             newchunk, stim = visualbuffer.automatic_search(stim)
         if newchunk:
             if visualbuffer:
-                visualbuffer.modify(newchunk, stim)
+                visualbuffer.modify(newchunk, found_stim=stim)
             else:
                 visualbuffer.add(newchunk, stim, time)
             visualbuffer.state = visualbuffer._FREE
diff --git a/pyactr/vision.py b/pyactr/vision.py
index 3bb9a60..2f3f9f6 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -63,7 +63,7 @@ class VisualLocation(buffers.Buffer):
             if self.finst < len(self.recent):
                 self.recent.popleft()
 
-    def modify(self, otherchunk, found_stim, actrvariables=None):
+    def modify(self, otherchunk, actrvariables=None, found_stim=None):
         """
         Modify the chunk in VisualLocation buffer according to otherchunk. found_stim keeps information about the actual stimulus and it is used to update the queue of the recently visited chunks.
         """
-- 
2.43.0


From 99438c064e1ec32a15f1634c92cd5d366e475e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 31/58] fix: similarities of one model are not used by other
 models

---
 pyactr/declarative.py | 3 +++
 pyactr/model.py       | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index d05c816..9ba5006 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -113,6 +113,7 @@ class DecMemBuffer(buffers.Buffer):
         self.recent = collections.deque()
         self.__finst = finst
         self.activation = None #activation of the last retrieved element
+        self.similarities = None #similarities between chunks, set by the model
 
         #parameters
         self.model_parameters = {}
@@ -190,6 +191,8 @@ class DecMemBuffer(buffers.Buffer):
         except utilities.ACTRError as arg:
             raise utilities.ACTRError(f"Retrieving the chunk '{otherchunk}' is impossible; {arg}")
         chunk_tobe_matched = chunks.Chunk(otherchunk.typename, **mod_attr_val)
+        if self.similarities is not None:
+            chunk_tobe_matched._similarities = self.similarities
 
         max_A = float("-inf")
 
diff --git a/pyactr/model.py b/pyactr/model.py
index c2c4197..cf2f68a 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -322,6 +322,7 @@ class ACTRModel:
 
         used_productions = productions.ProductionRules(self.productions, self.__buffers, decmem, self.model_parameters)
 
-        chunks.Chunk._similarities = self.__similarities
+        for key in self.retrievals:
+            self.retrievals[key].similarities = self.__similarities #every model has its own similarities
 
         return simulation.Simulation(self.__env, realtime, trace, gui, self.__buffers, used_productions, initial_time, environment_process, **kwargs)
-- 
2.43.0


From 139cfe53d0f8ff1d976524bda218e0c7fae4b827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 32/58] fix: setting spreading activation in one model does not
 change the default of other models

---
 pyactr/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index cf2f68a..c1fce81 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -2,6 +2,8 @@
 ACT-R Model.
 """
 
+import copy
+
 import pyparsing
 
 from pyactr import chunks, declarative, goals, motor, productions, simulation, utilities, vision
@@ -97,7 +99,7 @@ class ACTRModel:
         self.productions = productions.Productions()
         self.__similarities = {}
 
-        self.model_parameters = self.MODEL_PARAMETERS.copy()
+        self.model_parameters = copy.deepcopy(self.MODEL_PARAMETERS)
 
         try:
             if not set(model_parameters.keys()).issubset(set(self.MODEL_PARAMETERS.keys())):
-- 
2.43.0


From 9acee052e88bf500084ba773ad9a3ad9fc26d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 33/58] fix: the list of stimuli given to the environment
 process is not changed

---
 pyactr/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyactr/environment.py b/pyactr/environment.py
index d6012d4..c4ff673 100644
--- a/pyactr/environment.py
+++ b/pyactr/environment.py
@@ -83,6 +83,7 @@ class Environment:
         #make all arguments iterables if they are not yet
         if isinstance(stimuli, str) or isinstance(stimuli, collections.abc.Mapping) or not isinstance(stimuli, collections.abc.Iterable):
             stimuli = [stimuli]
+        stimuli = list(stimuli) #the argument itself is not changed
         for idx in range(len(stimuli)):
             if isinstance(stimuli[idx], collections.abc.Mapping):
                 for each in stimuli[idx]:
-- 
2.43.0


From c928ee2aa0d781a057612776bd016c9e3e38da20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 34/58] fix: processes of one module that start at the same
 moment do not stop the simulation

---
 pyactr/simulation.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index d989576..c04d883 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -132,7 +132,9 @@ class Simulation:
                     self.__interruptibles[proc[0]] = proc[1] #add new process interruptibles if the process can be interrupted according to ACT-R
                     self.__dict_extra_proc_activate[proc[0]].succeed() #activate modules that are used if not active
                 else:
-                    if proc[1] != self.__interruptibles[proc[0]]:
+                    if proc[0] not in self.__interruptibles:
+                        self.__interruptibles[proc[0]] = proc[1] #the module is being cleared; the new process starts right after that
+                    elif proc[1] != self.__interruptibles[proc[0]]:
                         self.__interruptibles[proc[0]] = proc[1]
                         self.__dict_extra_proc[proc[0]].interrupt() #otherwise, interrupt them
 
@@ -159,8 +161,13 @@ class Simulation:
             except StopIteration:
                 if name in self.__interruptibles:
                     self.__interruptibles.pop(name) #remove this process from interruptibles since it's finished
-                yield self.__dict_extra_proc_activate[name]
-                self.__dict_extra_proc_activate[name] = self.__simulation.event()
+                try:
+                    yield self.__dict_extra_proc_activate[name]
+                except simpy.Interrupt: #another process of this module comes before the previous one could start, and interrupts it
+                    for interrupted in [x for x in self.__procs_started if x[0] == name][:-1]:
+                        self.__procs_started.remove(interrupted)
+                else:
+                    self.__dict_extra_proc_activate[name] = self.__simulation.event()
             else:
                 self.__procs_started.remove((name, proc))
                 if not self.__dict_extra_proc_activate[name].triggered:
-- 
2.43.0


From b4bbe9d6347f62a958299b13c59cb5aa6c5bd469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 35/58] fix: an interrupted shift of attention does not leave
 the visual module busy

---
 pyactr/productions.py | 13 ++++++++++---
 pyactr/simulation.py  |  3 +++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 7880a58..8fc7f29 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -802,7 +802,12 @@ class ProductionRules:
             if (not mod_attr_val['cmd'].values) or mod_attr_val['cmd'].values not in utilities.CMDVISUAL:
                 raise ACTRError(f"Visual module received no command or an invalid command: '{mod_attr_val['cmd'].values}'. The valid commands are: '{utilities.CMDVISUAL}'")
             if mod_attr_val['cmd'].values == utilities.CMDMOVEATTENTION:
-                ret = yield from self.visualshift(name, updated, otherchunk, temp_actrvariables, time)
+                try:
+                    ret = yield from self.visualshift(name, updated, otherchunk, temp_actrvariables, time)
+                except GeneratorExit: #interrupted by another visual process
+                    updated.preparation = updated._FREE
+                    updated.processor = updated.execution #busy only if the previous shift is still being executed
+                    raise
                 yield ret #visual action returns value, namely, its continuation method
             elif mod_attr_val['cmd'].values == utilities.CMDCLEAR:
                 updated.stop_automatic_buffering()
@@ -871,9 +876,11 @@ class ProductionRules:
                 if (not visualbuffer) or list(visualbuffer)[0].value.values != st.get('text', ''): #automatic buffer only of there is sth to buffer
                     newchunk, encoding = visualbuffer.automatic_buffering(st, self.model_parameters)
         time += encoding
-        yield Event(roundtime(time), name, self._UNKNOWN)
+        try:
+            yield Event(roundtime(time), name, self._UNKNOWN)
+        finally: #also if it is interrupted by another visual process
+            visualbuffer.autoattending = visualbuffer._FREE
         visualbuffer.state = visualbuffer._FREE
-        visualbuffer.autoattending = visualbuffer._FREE
         if newchunk:
             if visualbuffer:
                 visualbuffer.modify(newchunk)
diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index c04d883..ee6132d 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -180,6 +180,8 @@ class Simulation:
                     if not pro.triggered:
                         warnings.warn(f"Process in {name} interrupted")
                         pro.interrupt() #interrupt process
+                    elif pro.value: #the process was just finished, so what follows it is not affected
+                        self.__simulation.process(self.__localprocess__(name, pro.value))
 
                 #if first extra process is followed by another process (returned as cont), do what follows; used only for motor and visual
                 else:
@@ -204,6 +206,7 @@ class Simulation:
             try:
                 yield self.__simulation.timeout(event.time-round(self.__simulation.now, 4)) #a hack -- rounded because otherwise there was a very tiny negative delay in some cases
             except simpy.Interrupt:
+                generator.close()
                 break
             else:
                 self.__printevent__(event)
-- 
2.43.0


From 91d724bf287650395ee903d9b4d07bdc188ed9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 36/58] fix: an object that is automatically found or buffered
 does not keep features of the previous object

---
 pyactr/productions.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 8fc7f29..d7abb04 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -851,10 +851,8 @@ class ProductionRules:
         if self.model_parameters["automatic_visual_search"]:
             newchunk, stim = visualbuffer.automatic_search(stim)
         if newchunk:
-            if visualbuffer:
-                visualbuffer.modify(newchunk, found_stim=stim)
-            else:
-                visualbuffer.add(newchunk, stim, time)
+            visualbuffer.discard(next(iter(visualbuffer), None)) #the previous object is replaced, not cleared into memory
+            visualbuffer.add(newchunk, stim, time)
             visualbuffer.state = visualbuffer._FREE
             yield Event(roundtime(time), name, f"ENCODED LOCATION: {newchunk}")
         else:
@@ -882,10 +880,8 @@ class ProductionRules:
             visualbuffer.autoattending = visualbuffer._FREE
         visualbuffer.state = visualbuffer._FREE
         if newchunk:
-            if visualbuffer:
-                visualbuffer.modify(newchunk)
-            else:
-                visualbuffer.add(newchunk, time)
+            visualbuffer.discard(next(iter(visualbuffer), None)) #the previous object is replaced, not cleared into memory
+            visualbuffer.add(newchunk, time)
             yield Event(roundtime(time), name, f"AUTOMATIC BUFFERING: {str(newchunk)}")
 
     def visualshift(self, name, visualbuffer, otherchunk, temp_actrvariables, time):
-- 
2.43.0


From bdd80bce5b8957020cd87bf39f89802182f7b614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 37/58] fix: textual rules without a name can be added

---
 pyactr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index c1fce81..5e56bb4 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -234,7 +234,7 @@ class ACTRModel:
         {'=g': example(value= two)}
         """
         if not name:
-            name = "unnamedrule" + productions.Productions._undefinedrulecounter
+            name = "unnamedrule" + str(productions.Productions._undefinedrulecounter)
             productions.Productions._undefinedrulecounter += 1
         temp_dictRHS = {v: k for k, v in utilities._RHSCONVENTIONS.items()}
         temp_dictLHS = {v: k for k, v in utilities._LHSCONVENTIONS.items()}
-- 
2.43.0


From 0635c3f28a9ce58f5418e645a1d87882343f2541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 38/58] fix: one non-empty declarative memory of several is
 used by buffers that have none

---
 pyactr/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index 5e56bb4..fa75073 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -303,8 +303,8 @@ class ACTRModel:
                 self.__buffers[key].dm = self.decmem #if only one dm, let all buffers use it
         elif len([x for x in self.decmems.values() if x]) == 1:
             for key in self.__buffers:
-                if not self.__buffers[key].dm:
-                    self.__buffers[key].dm = self.decmem #if only one non-trivial dm, let buffers use it that do not have a dm specified
+                if self.__buffers[key].dm is None:
+                    self.__buffers[key].dm = [x for x in self.decmems.values() if x][0] #if only one non-trivial dm, let buffers use it that do not have a dm specified
 
         decmem = {name: self.__buffers[name].dm for name in self.__buffers\
                 if self.__buffers[name].dm != None} #dict of declarative memories used; more than 1 decmem might appear here
-- 
2.43.0


From ea717b4b0b4b787858d8138f03786a2e45964d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 39/58] fix: visual buffers without a specified memory are
 harvested into the only memory

---
 pyactr/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyactr/model.py b/pyactr/model.py
index fa75073..c0c1fb1 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -314,6 +314,9 @@ class ACTRModel:
         if self.__env:
             self.__env.initial_time = initial_time #set the initial time of the environment to be the same as simulation
             if self.visbuffers:
+                for key in self.visbuffers:
+                    if self.visbuffers[key].dm is None and len({id(dm) for dm in decmem.values()}) == 1:
+                        self.visbuffers[key].dm = list(decmem.values())[0] #if only one dm, let visual buffers use it that do not have a dm specified
                 self.__buffers.update(self.visbuffers)
             else:
                 dm = list(decmem.values())[0]
-- 
2.43.0


From c0dc1c90981bf84ab5dfbae9b3005c3e2e6be2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 40/58] fix: a simulation starts with free modules and an empty
 screen, whatever an earlier one left

---
 pyactr/buffers.py |  8 +++++++-
 pyactr/model.py   |  4 ++++
 pyactr/vision.py  | 15 ++++++++++-----
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/pyactr/buffers.py b/pyactr/buffers.py
index 875ada4..a96b6b1 100644
--- a/pyactr/buffers.py
+++ b/pyactr/buffers.py
@@ -17,7 +17,7 @@ class Buffer(collections.abc.MutableSet):
 
     def __init__(self, dm=None, data=None):
         self.dm = dm
-        self.state = self._FREE #set here but state of buffer instances controlled in productions
+        self.free() #state set here but state of buffer instances controlled in productions
         if data == None:
             self._data = set([])
         else:
@@ -70,6 +70,12 @@ class Buffer(collections.abc.MutableSet):
         """
         self._data.discard(elem)
     
+    def free(self):
+        """
+        Make the module free. This is its state at the start of a simulation.
+        """
+        self.state = self._FREE
+
     def show(self, attr):
         """
         Print the content of the buffer.
diff --git a/pyactr/model.py b/pyactr/model.py
index c0c1fb1..6bae7c2 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -313,6 +313,7 @@ class ACTRModel:
 
         if self.__env:
             self.__env.initial_time = initial_time #set the initial time of the environment to be the same as simulation
+            self.__env.stimulus, self.__env.trigger = None, None #nothing is displayed before the environment starts
             if self.visbuffers:
                 for key in self.visbuffers:
                     if self.visbuffers[key].dm is None and len({id(dm) for dm in decmem.values()}) == 1:
@@ -323,6 +324,9 @@ class ACTRModel:
                 self.__buffers["visual"] = vision.Visual(self.__env, dm) #adding vision buffers
                 self.__buffers["visual_location"] = vision.VisualLocation(self.__env, dm) #adding vision buffers
         
+        for key in self.__buffers:
+            self.__buffers[key].free() #nothing that an earlier simulation was doing continues in this one
+
         self.productions.used_rulenames = {} # remove any previously stored rules for utility learning
 
         used_productions = productions.ProductionRules(self.productions, self.__buffers, decmem, self.model_parameters)
diff --git a/pyactr/vision.py b/pyactr/vision.py
index 2f3f9f6..d7ac8c1 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -254,17 +254,22 @@ class Visual(buffers.Buffer):
         self.environment = environment
         buffers.Buffer.__init__(self, default_harvest, None)
         self.current_focus = self.environment.current_focus
-        self.state  = self._FREE
+        self.attend_automatic = True #the current focus automatically attends
+
+        #parameters
+        self.model_parameters = {}
+
+    def free(self):
+        """
+        Make the module free, without any eye movement. This is its state at the start of a simulation.
+        """
+        super().free()
         self.preparation = self._FREE
         self.processor = self._FREE
         self.execution = self._FREE
         self.autoattending = self._FREE
-        self.attend_automatic = True #the current focus automatically attends
         self.last_mvt = 0
 
-        #parameters
-        self.model_parameters = {}
-
     @property
     def default_harvest(self):
         """
-- 
2.43.0


From 3f5364a12fedf8fafa162c526ce2a522d6bc3839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 41/58] fix: an illegal modification does not empty the buffer

---
 pyactr/buffers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/buffers.py b/pyactr/buffers.py
index a96b6b1..888c918 100644
--- a/pyactr/buffers.py
+++ b/pyactr/buffers.py
@@ -105,11 +105,11 @@ class Buffer(collections.abc.MutableSet):
         """
         if actrvariables == None:
             actrvariables = {}
-        elem = self._data.pop()
         try:
             mod_attr_val = {x[0]: utilities.check_bound_vars(actrvariables, x[1]) for x in otherchunk.removeunused()} #creates dict of attr-val pairs according to otherchunk
         except utilities.ACTRError as arg:
             raise utilities.ACTRError(f"The modification by the chunk '{otherchunk} is impossible; {arg}")
+        elem = self._data.pop()
         elem_attr_val = {x[0]: x[1] for x in elem}
         elem_attr_val.update(mod_attr_val) #updates original chunk with attr-val from otherchunk
         mod_chunk = chunks.Chunk(otherchunk.typename, **elem_attr_val) #creates new chunk
-- 
2.43.0


From 5c7392096332084c09d7186da174025fc85b80ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:48 +0000
Subject: [PATCH 42/58] fix: a buffer keeps its chunk when an element that is
 no chunk is added

---
 pyactr/buffers.py     | 14 +++++++++-----
 pyactr/declarative.py |  1 +
 pyactr/vision.py      |  2 ++
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyactr/buffers.py b/pyactr/buffers.py
index 888c918..0ba482c 100644
--- a/pyactr/buffers.py
+++ b/pyactr/buffers.py
@@ -57,11 +57,15 @@ class Buffer(collections.abc.MutableSet):
 
         elem must be a chunk.
         """
-        self._data = set()
-        
-        if isinstance(elem, chunks.Chunk):
-            self._data.add(elem)
-        else:
+        self._check_chunk(elem)
+        self._data = {elem}
+
+    @staticmethod
+    def _check_chunk(elem):
+        """
+        Raise an error if elem cannot be carried by a buffer.
+        """
+        if not isinstance(elem, chunks.Chunk):
             raise TypeError("Only chunks can be added to Buffer")
 
     def discard(self, elem):
diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 9ba5006..a03ef1a 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -150,6 +150,7 @@ class DecMemBuffer(buffers.Buffer):
         """
         Clear current buffer and adds a new chunk.
         """
+        self._check_chunk(elem)
         self.clear(time)
         super().add(elem)
 
diff --git a/pyactr/vision.py b/pyactr/vision.py
index d7ac8c1..d295d13 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -54,6 +54,7 @@ class VisualLocation(buffers.Buffer):
         """
         Clear current buffer (into a memory) and adds a new chunk. Decl. memory is either specified as default_harvest, when Visual is initialized, or it can be specified as the argument of harvest.
         """
+        self._check_chunk(elem)
         self.clear(time, harvest)
 
         super().add(elem)
@@ -289,6 +290,7 @@ class Visual(buffers.Buffer):
         """
         Clear current buffer (into a memory) and adds a new chunk. Decl. memory is either specified as default_harvest, when Visual is initialized, or it can be specified as the argument of harvest.
         """
+        self._check_chunk(elem)
         self.clear(time, harvest)
         super().add(elem)
 
-- 
2.43.0


From 62566dc693d56e708810594310426e8d7d42a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 43/58] fix: a manual request without a command or a key is an
 ACTRError

---
 pyactr/motor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyactr/motor.py b/pyactr/motor.py
index bb7b718..86f82ee 100644
--- a/pyactr/motor.py
+++ b/pyactr/motor.py
@@ -52,11 +52,12 @@ class Motor(buffers.Buffer):
 
         new_chunk = chunks.Chunk(self._MANUAL, **mod_attr_val) #creates new chunk
 
-        if new_chunk.cmd.values not in utilities.CMDMANUAL:
-            raise ACTRError(f"Motor module received an invalid command: '{new_chunk.cmd.values}'. The valid commands are: '{utilities.CMDMANUAL}'")
+        command = getattr(new_chunk.cmd, "values", None) #a slot that was left out has no values
+        if not command or command == str(utilities.EMPTYVALUE) or command not in utilities.CMDMANUAL:
+            raise ACTRError(f"Motor module received no command or an invalid command: '{command}'. The valid commands are: '{utilities.CMDMANUAL}'")
 
-        if new_chunk.cmd.values == utilities.CMDPRESSKEY:
-            pressed_key = new_chunk.key.values.upper() #change key into upper case
+        if command == utilities.CMDPRESSKEY:
+            pressed_key = str(getattr(new_chunk.key, "values", "")).upper() #change key into upper case
             mod_attr_val["key"] = pressed_key
             new_chunk = chunks.Chunk(self._MANUAL, **mod_attr_val) #creates new chunk
         if pressed_key not in self.LEFT_HAND and new_chunk.key.values not in self.RIGHT_HAND:
-- 
2.43.0


From efc19adff38f75b3dde1b66938565684771255c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:53 +0000
Subject: [PATCH 44/58] fix: a visual request without a command is an ACTRError

---
 pyactr/productions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index d7abb04..e213f81 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -799,6 +799,8 @@ class ProductionRules:
             yield Event(roundtime(time), name, f"ENCODED LOCATION:'{str(chunk)}'")
         elif isinstance(updated, vision.Visual):
             mod_attr_val = {x[0]: utilities.check_bound_vars(temp_actrvariables, x[1]) for x in otherchunk.removeunused()}
+            if 'cmd' not in mod_attr_val:
+                raise ACTRError(f"Visual module received no command. The valid commands are: '{utilities.CMDVISUAL}'")
             if (not mod_attr_val['cmd'].values) or mod_attr_val['cmd'].values not in utilities.CMDVISUAL:
                 raise ACTRError(f"Visual module received no command or an invalid command: '{mod_attr_val['cmd'].values}'. The valid commands are: '{utilities.CMDVISUAL}'")
             if mod_attr_val['cmd'].values == utilities.CMDMOVEATTENTION:
-- 
2.43.0


From 18cb5688dcdc39a6ff5577f30d2c453a5b78c05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 45/58] fix: the slot isa is refused in chunk types

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index f409f24..d2df393 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -30,7 +30,7 @@ def chunktype(cls_name, field_names, defaults=None, include=None):
         pass  # assume it's already a sequence of identifiers
     field_names = tuple(sorted(name + "_" for name in field_names))
     for each in field_names:
-        if each == "ISA" or each == "isa":
+        if each == "ISA_" or each == "isa_": #slot names carry the underscore at this point
             raise ACTRError("You cannot use the slot 'isa' in your chunk. That slot is used to define chunktypes.")
 
     # If an ancestor was specified, union the field names and re-sort
-- 
2.43.0


From 4a2259e233c8a2a58af279832dca7402fc19f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 46/58] fix: negated variables named like a buffer are checked
 when the buffer is tested after them

---
 pyactr/productions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index e213f81..361aa2a 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -1057,15 +1057,14 @@ class ProductionRules:
 
         submodule_var = "".join(["=", submodule_name])
 
-        if submodule_var in temp_actrvariables and list(self.buffers[submodule_name])[0] != temp_actrvariables[submodule_var]:
-            return False, None
-
         for chunk in tested:
             testchunk.boundvars = dict(temp_actrvariables)
 
             if testchunk <= chunk:
                 temp_actrvariables = dict(testchunk.boundvars)
-                temp_actrvariables[submodule_var] = list(self.buffers[submodule_name])[0]
+                if temp_actrvariables.get(submodule_var, chunk) != chunk or chunk in temp_actrvariables.get("~" + submodule_var, set()):
+                    return False, None #the name of the buffer was used as a variable (=buffer or ~=buffer) and what it was matched to goes against the chunk in the buffer
+                temp_actrvariables[submodule_var] = chunk
                 return True, temp_actrvariables
             else:
                 return False, None
-- 
2.43.0


From 6dc79449b0de3bf85e37b2d6a9ede5507e8da933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 47/58] fix: strict harvesting does not clear an untested
 buffer that has the name of a variable

---
 pyactr/productions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 361aa2a..93f9fd7 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -636,9 +636,10 @@ class ProductionRules:
 
         #this last part is strict harvesting
         if self.model_parameters["strict_harvesting"]:
+            tested_buffers = {key[1:] for key in next(self.rules[self.used_rulename]["rule"]()) if self._LHSCONVENTIONS[key[0]] == "test"}
             for key in temp_actrvariables:
                 submodule_name = key[1:]
-                if submodule_name in self.buffers:
+                if submodule_name in self.buffers and submodule_name in tested_buffers: #other variables might be named like a buffer, too
                     self.procs.append((submodule_name, self.clear(submodule_name, self.buffers[submodule_name], None, self.__actrvariables, time)))
 
     def extra_test(self, name, tested, test, temp_actrvariables, time):
-- 
2.43.0


From ea847589aac507194900c8f8b5c0d521b938edde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:18 +0000
Subject: [PATCH 48/58] fix: rules that use the chunk in a buffer as a whole
 are not compiled into rules with unbound or changed variables

---
 pyactr/productions.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 93f9fd7..39e8f97 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -404,6 +404,22 @@ class Productions(collections.UserDict):
 
         return False
 
+    def __tested_and_used__(self, name):
+        """
+        Return names of buffers that the rule tests, and names of variables that it uses.
+        """
+        production = self[name]['rule']()
+        tested, used = set(), set()
+        for idx, pro in enumerate(production):
+            for key in pro:
+                if idx == 0 and utilities._LHSCONVENTIONS[key[0]] == "test":
+                    tested.add(key[1:])
+                if isinstance(pro[key], chunks.Chunk):
+                    for _, val in pro[key]:
+                        varval = utilities.splitting(val)
+                        used.update({varval.variables}.difference({None}), varval.negvariables)
+        return tested, used
+
     def compile_rules(self, rule_name1, rule_name2, slotvals, buffers, model_parameters):
         """
         Rule compilation.
@@ -440,6 +456,12 @@ class Productions(collections.UserDict):
             if slotvals[buff] is None and key in tested_by_1rule:
                 slotvals[buff] = tested_by_1rule[key]._asdict()
 
+        #variables named like a tested buffer stand for the whole chunk in that buffer; they can be neither renamed nor substituted
+        tested1, used1 = self.__tested_and_used__(rule_name1)
+        tested2, used2 = self.__tested_and_used__(rule_name2)
+        if used2.intersection(tested2) or used1.intersection(tested2.difference(tested1)):
+            return False, False
+
         new_2rule = self.__rename__(rule_name2, modified_actrvariables) #rename all variables in rule_name2 to avoid var clashes
 
         production2 = new_2rule['rule']()
@@ -448,6 +470,9 @@ class Productions(collections.UserDict):
 
         matched, valued = utilities.match(pro2, slotvals, rule_name1, rule_name2)
 
+        if any(x in valued or matched.get(x, x) != x for x in used1.intersection(tested1)):
+            return False, False
+
         new_1rule = self.__substitute__(self[rule_name1], matched, valued)
         
         new_2rule = self.__substitute__(new_2rule, matched, valued)
-- 
2.43.0


From 0c74b410acf70c621c5754cbeca481f240ba6f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 49/58] fix: a failed retrieval does not make the retrieval
 buffer forget a recently retrieved chunk

---
 pyactr/declarative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index a03ef1a..23142f2 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -252,7 +252,7 @@ class DecMemBuffer(buffers.Buffer):
                 extra_time = utilities.retrieval_latency(model_parameters["retrieval_threshold"], model_parameters["latency_factor"],  model_parameters["latency_exponent"])
             else:
                 extra_time = model_parameters["rule_firing"]
-        if self.__finst:
+        if self.__finst and retrieved:
             self.recent.append(retrieved)
             if self.__finst < len(self.recent):
                 self.recent.popleft()
-- 
2.43.0


From f397f2e3c4605abc800f7c04e8e037b0a3e43809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 50/58] fix: variables of a compiled rule are not mixed up with
 those of one of its rules that is compiled with it again

---
 pyactr/productions.py |  2 +-
 pyactr/utilities.py   | 21 +++++++++++----------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 39e8f97..112c51f 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -462,7 +462,7 @@ class Productions(collections.UserDict):
         if used2.intersection(tested2) or used1.intersection(tested2.difference(tested1)):
             return False, False
 
-        new_2rule = self.__rename__(rule_name2, modified_actrvariables) #rename all variables in rule_name2 to avoid var clashes
+        new_2rule = self.__rename__(rule_name2, modified_actrvariables.union(used1)) #rename all variables in rule_name2 to avoid var clashes
 
         production2 = new_2rule['rule']()
         
diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 038fbcf..5457a75 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -171,6 +171,15 @@ def getchunk():
     chunk_reader = pp.OneOrMore(pp.Group(slot + value))
     return chunk_reader
 
+def make_new_variable(variable, rule_name, variables):
+    """
+    Make a variable name that uses rule_name and that is not among variables.
+    """
+    new_name = "".join([str(variable), "__rule__", rule_name])
+    while new_name in variables:
+        new_name += "_"
+    return new_name
+
 def make_chunkparts_without_varconflicts(chunkpart, rule_name, variables):
     """
     Make a chunk avoiding any variable names used in actrvariables. The function uses rule_name for naming, if possible.
@@ -178,18 +187,10 @@ def make_chunkparts_without_varconflicts(chunkpart, rule_name, variables):
     varval = splitting(chunkpart)
     temp_var = None
     if varval.variables:
-        new_name = "".join([str(varval.variables), "__rule__", rule_name])
-        if "".join(["=", new_name]) in variables:
-            raise ACTRError(f"A name clash appeared when trying to compile two rules. Try to rename variables in the rule '{rule_name}'")
-        else:
-            temp_var = new_name
+        temp_var = make_new_variable(varval.variables, rule_name, variables)
     temp_negvar = set()
     for x in varval.negvariables:
-        new_name = "".join([str(x), "__rule__", rule_name])
-        if "".join(["=", "new_name"]) in variables:
-            raise ACTRError(f"A name clash appeared when trying to compile two rules. Try to rename variables in the rule '{rule_name}'")
-        else:
-            temp_negvar.add(new_name)
+        temp_negvar.add(make_new_variable(x, rule_name, variables))
     new_varval = VarvalClass(variables=temp_var, values=varval.values, negvariables=tuple(temp_negvar), negvalues=varval.negvalues)
 
     return new_varval
-- 
2.43.0


From 33cbbc89a079969e3f3e79a1c56556add17be996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 51/58] fix: chunks without slots are retrieved and matched
 like other chunks

---
 pyactr/chunks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index d2df393..9c8608d 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -216,6 +216,9 @@ class Chunk(Sequence):
     def __len__(self):
         return len(self.actrchunk)
 
+    def __bool__(self):
+        return True #also if the chunk has no slots
+
     def __repr__(self):
         reprtxt = ""
         for x, y in self:
-- 
2.43.0


From a7ee94895189d9cc981c43352a9c96e88c4ce9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 52/58] fix: a variable bound to an empty slot of the retrieved
 chunk is bound in the compiled rule, too

---
 pyactr/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 5457a75..5b33bf2 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -358,9 +358,9 @@ def match(dict2, slotvals, name1, name2):
                     except KeyError:
                         chunkpart3 = splitting(EMPTYVALUE)
                     try:
-                        temp_val = getattr(chunkdict3[1], elem).values
+                        temp_val = getattr(chunkdict3[1], elem).values or str(EMPTYVALUE)
                     except AttributeError:
-                        temp_val = None
+                        temp_val = str(EMPTYVALUE) #the slot is empty in the retrieved chunk
                     temp_set = set()
                     if chunkpart2.variables:
                         temp_set.update(set([chunkpart2.variables]))
-- 
2.43.0


From be5cd366266707450f3c419833cddfa1f8391f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:29 +0000
Subject: [PATCH 53/58] fix: chunks are equal in whatever order their negated
 values and variables are kept

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 9c8608d..5a8fad5 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -206,7 +206,7 @@ class Chunk(Sequence):
                             else:
                                 yield tuple([key, hash(value)])
 
-        self.__hash = hash(tuple(hash_func())), self.boundvars.copy() #store the hash along with the vars used to calculate it, so it doesnt need to be recalculated
+        self.__hash = hash(frozenset(hash_func())), self.boundvars.copy() #store the hash along with the vars used to calculate it, so it doesnt need to be recalculated
         return self.__hash[0]
 
     def __iter__(self):
-- 
2.43.0


From f1a0c5fab5a3601fe4a3e77794469b2bdd1e6395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:07 +0000
Subject: [PATCH 54/58] fix: the visual module is not free when a shift ends
 while another one is prepared or executed

---
 pyactr/productions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 112c51f..c741174 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -969,8 +969,10 @@ class ProductionRules:
             newchunk, extra_time, _ = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters)
             if newchunk:
                 yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site)
-        visualbuffer.processor = visualbuffer._FREE
-        visualbuffer.execution = visualbuffer._FREE
+        if visualbuffer.last_mvt <= time: #otherwise, another movement is already waiting to be executed or is executed
+            visualbuffer.execution = visualbuffer._FREE
+            if visualbuffer.preparation == visualbuffer._FREE: #otherwise, another shift is being prepared
+                visualbuffer.processor = visualbuffer._FREE
         visualbuffer.state = visualbuffer._FREE
         visualbuffer.attend_automatic = True
         if encoding > preparation+execution and not newchunk: #the object disappeared before it was encoded
-- 
2.43.0


From f00175651a1a6f73428e72dd16dbf0416932320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:11 +0000
Subject: [PATCH 55/58] fix: a simulation that was left does not free the
 visual module of a later one when it is garbage-collected

---
 pyactr/productions.py | 6 ++++--
 pyactr/simulation.py  | 5 ++++-
 pyactr/utilities.py   | 5 +++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index c741174..6bceba2 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -832,7 +832,7 @@ class ProductionRules:
             if mod_attr_val['cmd'].values == utilities.CMDMOVEATTENTION:
                 try:
                     ret = yield from self.visualshift(name, updated, otherchunk, temp_actrvariables, time)
-                except GeneratorExit: #interrupted by another visual process
+                except utilities.ProcessInterrupt: #interrupted by another visual process
                     updated.preparation = updated._FREE
                     updated.processor = updated.execution #busy only if the previous shift is still being executed
                     raise
@@ -904,8 +904,10 @@ class ProductionRules:
         time += encoding
         try:
             yield Event(roundtime(time), name, self._UNKNOWN)
-        finally: #also if it is interrupted by another visual process
+        except utilities.ProcessInterrupt: #interrupted by another visual process
             visualbuffer.autoattending = visualbuffer._FREE
+            raise
+        visualbuffer.autoattending = visualbuffer._FREE
         visualbuffer.state = visualbuffer._FREE
         if newchunk:
             visualbuffer.discard(next(iter(visualbuffer), None)) #the previous object is replaced, not cleared into memory
diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index ee6132d..0151660 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -206,7 +206,10 @@ class Simulation:
             try:
                 yield self.__simulation.timeout(event.time-round(self.__simulation.now, 4)) #a hack -- rounded because otherwise there was a very tiny negative delay in some cases
             except simpy.Interrupt:
-                generator.close()
+                try:
+                    generator.throw(utilities.ProcessInterrupt())
+                except (StopIteration, utilities.ProcessInterrupt):
+                    pass
                 break
             else:
                 self.__printevent__(event)
diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 5b33bf2..1ea8311 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -114,6 +114,11 @@ def roundtime(time):
 
 ##############class for ACT-R Exceptions##############
 
+class ProcessInterrupt(Exception):
+    """
+    Raised in a process of a module that is interrupted by another process.
+    """
+
 class ACTRError(Exception):
     """
     Exception specific to ACT-R.
-- 
2.43.0


From b1e01c65303adc4b504ff5c5757a6c3023053b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:56 +0000
Subject: [PATCH 56/58] fix: deleting a chunk from declarative memory removes
 its manually added activation

---
 pyactr/declarative.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 23142f2..65eafe3 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -31,6 +31,7 @@ class DecMem(collections.abc.MutableMapping):
     
     def __delitem__(self, key):
         del self._data[key]
+        self.activations.pop(key, None) #the activation belonged to the deleted chunk; it would return if the chunk was added again
         self.restricted_number_chunks.clear() #the stored fans might have changed, they will be recalculated
         self.unrestricted_number_chunks.clear()
 
-- 
2.43.0


From d1e286ce4507d2234989f33e82bcb54eb9bff241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:37 +0000
Subject: [PATCH 57/58] fix: the copy of a goal buffer keeps its delay

---
 pyactr/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/goals.py b/pyactr/goals.py
index 1b33b29..900ef2b 100644
--- a/pyactr/goals.py
+++ b/pyactr/goals.py
@@ -68,7 +68,7 @@ class Goal(buffers.Buffer):
         """
         if harvest == None:
             harvest = self.dm
-        copy_goal = Goal(self._data.copy(), harvest)
+        copy_goal = Goal(self._data.copy(), harvest, self.delay)
         return copy_goal
     
     def test(self, state, inquiry):
-- 
2.43.0


From 4938e85131fc763bbf2a1b27920c1f69dabb7e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 58/58] fix: the copy of a retrieval buffer has its own copy of
 the memory (as documented), the finst, remembered retrievals and parameters
 of the original

---
 pyactr/declarative.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 65eafe3..d85e05a 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -166,9 +166,13 @@ class DecMemBuffer(buffers.Buffer):
         """
         Copy buffer, along with its declarative memory, unless dm is specified. You need to specify new dm if 2 buffers share the same dm - only one of them should copy dm then.
         """
-        if dm == None:
-            dm = self.dm 
-        copy_buffer = DecMemBuffer(dm, self._data.copy())
+        if dm == None and self.dm != None:
+            dm = self.dm.copy()
+        copy_buffer = DecMemBuffer(dm, self._data.copy(), self.finst)
+        copy_buffer.recent = self.recent.copy()
+        copy_buffer.activation = self.activation
+        copy_buffer.similarities = self.similarities
+        copy_buffer.model_parameters = self.model_parameters.copy()
         return copy_buffer
 
     def test(self, state, inquiry):
-- 
2.43.0

