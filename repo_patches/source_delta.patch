From 5103b85bdb94ab945aefc0ae1b605147a863e6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 01/66] fix: Chunk.__hash__ treats a variable name as one name,
 not as a sequence of letters

---
 pyactr/chunks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 58ea8f2..fcb3bff 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -186,7 +186,8 @@ class Chunk(Sequence):
                 temp_varval = {"values": set(), "negvalues": set()}
                 for key in ["variables", "negvariables"]:
                     if getattr(varval, key):
-                        for value in getattr(varval, key):
+                        names = getattr(varval, key)
+                        for value in [names] if isinstance(names, str) else names: #variables is one name, negvariables is a sequence of names
                             try:
                                 temp_varval[re.sub("variables", "values", key)].add(self.boundvars[utilities.ACTRVARIABLE + value]) #add (neg)value based on the (neg)variable
                             except KeyError:
-- 
2.43.0


From 3018475d16d8587953fdb17b54df4ec34c7ae943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 02/66] fix: a slot that the matched chunk lacks counts as an
 empty slot

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index fcb3bff..7c870b4 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -257,7 +257,7 @@ class Chunk(Sequence):
             try:
                 matching_val = getattr(otherchunk.actrchunk, x[0] + "_") #get the value of attr
             except AttributeError:
-                matching_val = None #if it is missing, it must be None
+                matching_val = self.__emptyvalue #if it is missing, it must be None
 
             if isinstance(matching_val, utilities.VarvalClass):
                 matching_val = matching_val.values #the value might be written using _variablesvalues namedtuple; in that case, get it out
-- 
2.43.0


From a189b076d33550fc9537489b23dc82367324bb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 03/66] fix: a negated chunk name in a chunk string denotes the
 chunk, as an unnegated one does

---
 pyactr/chunks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 7c870b4..a573c3d 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -391,6 +391,8 @@ def createchunkdict(chunk):
                 else:
                     updating = sp_dict[elem[idx][0]]
                     update_val = elem[idx][1]
+                    if updating == "negvalues": #as with positive values, check if the string is an existing chunk in the database of chunks
+                        update_val = Chunk._chunks.get(update_val, update_val)
 
             except (KeyError, IndexError): #indexerror --> only a string is present; keyerror: the first element in elem[idx] is not a special symbol (in sp)
                 if elem[idx][0] == "'" or elem[idx][0] == '"':
-- 
2.43.0


From 486933d703d9e4056a65d0c5d136e9164e5ebce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 04/66] fix: an explicit None next to a variable is not dropped
 from the hash of a pattern

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index a573c3d..3c5ecb8 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -196,7 +196,7 @@ class Chunk(Sequence):
                                 else:
                                     yield tuple([key, hash(value)])
                 for key in ["values", "negvalues"]:
-                    if key == "values" and getattr(varval, key) != self.__emptyvalue:
+                    if key == "values" and (getattr(varval, key) != self.__emptyvalue or (varval.variables and varval.values)): #an explicit empty value next to a variable is a constraint of its own
                         temp_varval[key].update(set([getattr(varval, key)]))
                     elif key == "negvalues":
                         temp_varval[key].update(set(getattr(varval, key)))
-- 
2.43.0


From a493fd7ae67a56bf400fe13ef66eae0de3fed977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 05/66] fix: a production rule can be defined without a name

---
 pyactr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index c2c4197..d3e1fbb 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -232,7 +232,7 @@ class ACTRModel:
         {'=g': example(value= two)}
         """
         if not name:
-            name = "unnamedrule" + productions.Productions._undefinedrulecounter
+            name = "unnamedrule" + str(productions.Productions._undefinedrulecounter)
             productions.Productions._undefinedrulecounter += 1
         temp_dictRHS = {v: k for k, v in utilities._RHSCONVENTIONS.items()}
         temp_dictLHS = {v: k for k, v in utilities._LHSCONVENTIONS.items()}
-- 
2.43.0


From e32e40f21fed7a34ce452d946519d4ef5d235d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 06/66] fix: a chunk stored at the current moment is recognised
 as such despite floating-point time

---
 pyactr/declarative.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 17c5eea..ca8093c 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -184,6 +184,8 @@ class DecMemBuffer(buffers.Buffer):
         """
         Retrieve a chunk from declarative memory that matches otherchunk.
         """
+        time = utilities.roundtime(time) #presentations are stored with rounded times, so the current moment has to be rounded to be comparable to them
+
         model_parameters = model_parameters.copy()
         model_parameters.update(self.model_parameters)
 
-- 
2.43.0


From 5360ae6116cf883a3e7691133c4ea36dbd5a9c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 07/66] fix: optimized base-level learning ignores all
 presentations stamped with the current moment instead of failing

---
 pyactr/utilities.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 3381c09..32c1068 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -6,7 +6,6 @@ import collections
 import collections.abc
 import re
 import math
-import warnings
 
 import numpy as np
 import pyparsing as pp
@@ -425,25 +424,12 @@ def baselevel_learning(current_time, times, bll, decay, activation=None, optimiz
     Calculate base-level learning: B_i = ln(sum(t_j^{-decay})) for t_j = current_time - t for t in times.
     """
     if bll:
-        if len(times) > 0:
-            with warnings.catch_warnings(record=True):
-                warnings.filterwarnings('error')
-                if not optimized_learning:
-                    try:
-                        B = math.log(np.sum((current_time - times) ** (-decay)))
-                    #this part removes chunk storages that are stored at current time (blocking simultaneous retrieval)
-                    except RuntimeWarning:
-                        temp_times = np.delete(times, times.argmax())
-                        if len(temp_times) > 0:
-                            B = math.log(np.sum((current_time - temp_times) ** (-decay)))
-                else:
-                    try:
-                        B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(times)) #calculating bll using optimized learning -- much faster since it's a single calculation
-                    #this part removes chunk storages that are stored at current time (blocking simultaneous retrieval)
-                    except RuntimeWarning:
-                        temp_times = np.delete(times, times.argmax())
-                        if len(temp_times) > 0:
-                            B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(temp_times)) #calculating bll using optimized learning -- much faster since it's a single calculation
+        past_times = times[times < current_time] #chunk storages at current time do not count (blocking simultaneous retrieval)
+        if len(past_times) > 0:
+            if not optimized_learning:
+                B = math.log(np.sum((current_time - past_times) ** (-decay)))
+            else:
+                B = math.log(len(past_times)/(1-decay)) - decay*math.log(current_time - np.max(past_times)) #calculating bll using optimized learning -- much faster since it's a single calculation
     else:
         B = 0
 
-- 
2.43.0


From 37296c8521e9bab225d6151aecc8870557750b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 08/66] fix: removing a chunk from declarative memory updates
 the counts used for spreading activation

---
 pyactr/declarative.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index ca8093c..3f4469d 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -31,6 +31,12 @@ class DecMem(collections.abc.MutableMapping):
     
     def __delitem__(self, key):
         del self._data[key]
+        for x in key: #occurrences in the removed chunk do not count any more for strength association
+            value = utilities.splitting(x[1]).values
+            if value and value in self.unrestricted_number_chunks:
+                self.unrestricted_number_chunks.subtract([value])
+            if value and (x[0], value) in self.restricted_number_chunks:
+                self.restricted_number_chunks.subtract([(x[0], value)])
 
     def __iter__(self):
         for elem in self._data:
-- 
2.43.0


From e6ee16d1ab7b2be69e0e5afb05fa6b6732c0148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 09/66] fix: a failed retrieval does not evict remembered
 chunks from finst memory

---
 pyactr/declarative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 3f4469d..78121b8 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -260,7 +260,7 @@ class DecMemBuffer(buffers.Buffer):
                 extra_time = utilities.retrieval_latency(model_parameters["retrieval_threshold"], model_parameters["latency_factor"],  model_parameters["latency_exponent"])
             else:
                 extra_time = model_parameters["rule_firing"]
-        if self.__finst:
+        if self.__finst and retrieved: #a failed retrieval is not remembered
             self.recent.append(retrieved)
             if self.__finst < len(self.recent):
                 self.recent.popleft()
-- 
2.43.0


From 174307717002484ebb44877bb0987bc8ea892a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 10/66] fix: conflict resolution orders rules by their current
 utility

---
 pyactr/productions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 50cd31e..bd21e62 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -497,7 +497,8 @@ class ProductionRules:
         
         self.last_rule_slotvals = self.current_slotvals.copy()
 
-        for rulename in self.ordered_rulenames:
+        #utility learning and production compilation might have changed the order of rules
+        for rulename in sorted(filter(self.rules.__contains__, self.ordered_rulenames), key=lambda x: self.rules[x]['utility'], reverse=True):
             self.used_rulename = rulename
             production = self.rules[rulename]["rule"]()
             utility = self.rules[rulename]["utility"]
-- 
2.43.0


From da0c36bd7f6e2e8d35ae3d5258e59516b1729009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 11/66] fix: motor preparation time takes into account the
 class and the hand of the keys

---
 pyactr/productions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index bd21e62..6d545ec 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -909,8 +909,8 @@ class ProductionRules:
         if newchunk.key == motorbuffer.last_key[0] or self.model_parameters["motor_prepared"]:
             self.model_parameters["motor_prepared"] = False #motor_prepared is only used for the 1st key press
             preparation = 0
-        elif motorbuffer.last_key[0] and (newchunk.key in motorbuffer.PRESSING) == (motorbuffer.last_key[0] in motorbuffer.PRESSING):
-            if (newchunk.key in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0] in motorbuffer.LEFT_HAND): 
+        elif motorbuffer.last_key[0] and (newchunk.key.values in motorbuffer.PRESSING) == (motorbuffer.last_key[0].values in motorbuffer.PRESSING):
+            if (newchunk.key.values in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0].values in motorbuffer.LEFT_HAND): 
                 preparation -= 0.1 #the same hand, same mvt cuts down by 100 ms; Lisp ACT-R also has the same finger which cuts down by 150 ms; this is not currently implemented
             else:
                 preparation -= 0.05 #a different hand, same mvt cuts down by 50 ms
-- 
2.43.0


From 59f5cd82df8214628e7128d145f7ef9fdbfcf2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 12/66] fix: a key press that waited for the previous one keeps
 the manual module busy until it is finished

---
 pyactr/productions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 6d545ec..2cca07b 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -942,7 +942,8 @@ class ProductionRules:
         
         time += initiation
         
-        motorbuffer.last_key[1] = time + execution + movement_finish
+        finish = time + execution + movement_finish
+        motorbuffer.last_key[1] = finish
         
         yield Event(roundtime(time), name, 'INITIATION COMPLETE')
         
@@ -960,9 +961,11 @@ class ProductionRules:
         yield Event(roundtime(time), name, 'MOVEMENT FINISHED')
         
         self.env_interaction.discard(otherchunk.key)
-        motorbuffer.state = motorbuffer._FREE
-        motorbuffer.execution = motorbuffer._FREE
-        motorbuffer.last_key[1] = 0
+        if motorbuffer.last_key[1] == finish: #unless the next movement waited for this one and is being executed now
+            motorbuffer.execution = motorbuffer._FREE
+            motorbuffer.last_key[1] = 0
+            if motorbuffer.preparation == motorbuffer._FREE: #unless the next movement is being prepared
+                motorbuffer.state = motorbuffer._FREE
 
     def LHStest(self, dictionary, actrvariables, update=False):
         """
-- 
2.43.0


From 6404dedbeb77f1b3efe29c75a7894763303fd959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 13/66] fix: the environment process can start later than the
 simulation

---
 pyactr/environment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/environment.py b/pyactr/environment.py
index 44e0ae9..9774bc2 100644
--- a/pyactr/environment.py
+++ b/pyactr/environment.py
@@ -78,8 +78,8 @@ class Environment:
         (Use this key with caution: visual_location searches cannot return an object if it contains
         an externally-visible attribute that is not present in the search)
         """
-        #subtract start_time from initial_time
-        start_time = self.initial_time - start_time
+        #start_time is counted from initial_time
+        start_time = self.initial_time + start_time
         #make all arguments iterables if they are not yet
         if isinstance(stimuli, str) or isinstance(stimuli, collections.abc.Mapping) or not isinstance(stimuli, collections.abc.Iterable):
             stimuli = [stimuli]
-- 
2.43.0


From d87e86cdae95dd4e0dac01276253763f8f1596c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 14/66] fix: pressing a trigger key again does not activate the
 environment twice

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 9460268..384cba8 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -201,7 +201,7 @@ class Simulation:
                 self.__printevent__(event)
                 self.__activate__(event)
             try:
-                if self.__env.trigger and self.__pr.env_interaction.intersection(self.__env.trigger):
+                if self.__env.trigger and self.__pr.env_interaction.intersection(self.__env.trigger) and not self.__environment_activate.triggered:
                     self.__environment_activate.succeed(value=(self.__env.trigger, self.__pr.env_interaction))
                 self.__pr.env_interaction = set()
             except AttributeError:
-- 
2.43.0


From 91a8ce38f36a65f0f0e192dfa4932ff287ddcd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 15/66] fix: a trigger key pressed at the moment the time of a
 stimulus runs out does not break the environment

---
 pyactr/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 384cba8..051ac2c 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -107,7 +107,8 @@ class Simulation:
             yield pro | self.__environment_activate
             if self.__environment_activate.triggered:
                 self.__environment_activate = self.__simulation.event()
-                pro.interrupt()
+                if not pro.triggered: #the time of the stimulus can run out at the same moment
+                    pro.interrupt()
             try:
                 event = next(generator)
             except StopIteration:
-- 
2.43.0


From 3ce71ade6e4f81e83216fd1097874643c439496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 16/66] fix: a stimulus given as a string can be attended

---
 pyactr/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/environment.py b/pyactr/environment.py
index 9774bc2..67d809a 100644
--- a/pyactr/environment.py
+++ b/pyactr/environment.py
@@ -89,7 +89,7 @@ class Environment:
                     if not isinstance(stimuli[idx][each], collections.abc.Mapping): #stimuli[idx][each] encodes position etc.
                         raise utilities.ACTRError("Stimuli must be a list of dictionaries, e.g.,: [{'stimulus1-0time': {'text': 'hi', 'position': (0, 0)}, 'stimulus2-0time': {'text': 'you', 'position': (10, 10)}}, {'stimulus3-latertime': {'text': 'new', 'position': (0, 0)}}] etc. Currently, you have this: '%s'" %stimuli[idx])
             else:
-                stimuli[idx] = {stimuli[idx]: {'position': (320, 180)}} #default position - 320, 180
+                stimuli[idx] = {stimuli[idx]: {'text': stimuli[idx], 'position': (320, 180)}} #default position - 320, 180
         if isinstance(triggers, str) or not isinstance(triggers, collections.abc.Iterable):
             triggers = [triggers]
         if isinstance(times, str) or not isinstance(times, collections.abc.Iterable):
-- 
2.43.0


From 3d2f006dc462d5094761d7e7a4556f85a26f84ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 17/66] fix: a module activated at the moment the screen
 changes is not killed by the change

---
 pyactr/simulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 051ac2c..46faef0 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -159,7 +159,10 @@ class Simulation:
             except StopIteration:
                 if name in self.__interruptibles:
                     self.__interruptibles.pop(name) #remove this process from interruptibles since it's finished
-                yield self.__dict_extra_proc_activate[name]
+                try:
+                    yield self.__dict_extra_proc_activate[name]
+                except simpy.Interrupt:
+                    pass #activated and interrupted at the same moment; what was started is carried out
                 self.__dict_extra_proc_activate[name] = self.__simulation.event()
             else:
                 self.__procs_started.remove((name, proc))
-- 
2.43.0


From b352520226e16003333b34c84fc3dac23f442091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 18/66] fix: modifying the visual_location buffer by a rule
 uses the bindings of the rule and marks nothing as attended

---
 pyactr/productions.py | 2 +-
 pyactr/vision.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 2cca07b..af2641f 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -800,7 +800,7 @@ class ProductionRules:
             newchunk, stim = visualbuffer.automatic_search(stim)
         if newchunk:
             if visualbuffer:
-                visualbuffer.modify(newchunk, stim)
+                visualbuffer.modify(newchunk, found_stim=stim)
             else:
                 visualbuffer.add(newchunk, stim, time)
             yield Event(roundtime(time), name, f"ENCODED LOCATION: {newchunk}")
diff --git a/pyactr/vision.py b/pyactr/vision.py
index 5e7a2bd..247a55e 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -63,7 +63,7 @@ class VisualLocation(buffers.Buffer):
             if self.finst < len(self.recent):
                 self.recent.popleft()
 
-    def modify(self, otherchunk, found_stim, actrvariables=None):
+    def modify(self, otherchunk, actrvariables=None, found_stim=None):
         """
         Modify the chunk in VisualLocation buffer according to otherchunk. found_stim keeps information about the actual stimulus and it is used to update the queue of the recently visited chunks.
         """
-- 
2.43.0


From 6b05a653e962dc807dd3256c41ba4129c19193f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 19/66] fix: encoding of an object continues even if the screen
 changes during the eye movement

---
 pyactr/productions.py |  9 +++++----
 pyactr/vision.py      | 14 ++++++++------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index af2641f..562ba2e 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -836,7 +836,8 @@ class ProductionRules:
         """
         Carry out preparation of visual shift.
         """
-        newchunk, extra_time, site = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters)
+        stimulus = visualbuffer.environment.stimulus #the object is taken from this screen even if the screen changes later
+        newchunk, extra_time, site = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters, stimulus=stimulus)
 
         encoding = extra_time[0]
         preparation = extra_time[1]
@@ -858,9 +859,9 @@ class ProductionRules:
         if encoding > preparation and encoding <= preparation+execution:
             yield from self.visualencode(name, visualbuffer, newchunk, temp_actrvariables, time-preparation, encoding, site)
 
-        yield self.visualcontinue(name, visualbuffer, newchunk, temp_actrvariables, time, extra_time, site)
+        yield self.visualcontinue(name, visualbuffer, newchunk, temp_actrvariables, time, extra_time, site, stimulus)
 
-    def visualcontinue(self, name, visualbuffer, otherchunk, temp_actrvariables, time, extra_time, landing_site):
+    def visualcontinue(self, name, visualbuffer, otherchunk, temp_actrvariables, time, extra_time, landing_site, stimulus):
         """
         Carry out the rest of visual shift. Shift is split in two because of EMMA assumption that the two parts can act independently of each other.
         """
@@ -881,7 +882,7 @@ class ProductionRules:
         visualbuffer.move_eye(landing_site)
         yield Event(roundtime(time), name, f"SHIFT COMPLETE TO POSITION: {str(visualbuffer.current_focus)}")
         if encoding > preparation+execution:
-            newchunk, extra_time, _ = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters)
+            newchunk, extra_time, _ = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters, stimulus=stimulus)
             yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site)
         visualbuffer.processor = visualbuffer._FREE
         visualbuffer.execution = visualbuffer._FREE
diff --git a/pyactr/vision.py b/pyactr/vision.py
index 247a55e..675148c 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -316,10 +316,12 @@ class Visual(buffers.Buffer):
         """
         self.attend_automatic = False
 
-    def shift(self, otherchunk, harvest=None, actrvariables=None, model_parameters=None):
+    def shift(self, otherchunk, harvest=None, actrvariables=None, model_parameters=None, stimulus=None):
         """
-        Return a chunk, time needed to attend and shift eye focus to the chunk, and the landing site of eye mvt.
+        Return a chunk, time needed to attend and shift eye focus to the chunk, and the landing site of eye mvt. The chunk is looked up in stimulus (by default, what is on the screen now).
         """
+        if stimulus == None:
+            stimulus = self.environment.stimulus
         if model_parameters == None:
             model_parameters = {}
         model_parameters = model_parameters.copy()
@@ -334,11 +336,11 @@ class Visual(buffers.Buffer):
 
         vis_delay = None
 
-        for each in self.environment.stimulus:
+        for each in stimulus:
             try:
-                if self.environment.stimulus[each]['position'] == (float(mod_attr_val['screen_pos'].values.screen_x.values), float(mod_attr_val['screen_pos'].values.screen_y.values)):
-                    vis_delay = self.environment.stimulus[each].get('vis_delay')
-                    stim = self.environment.stimulus[each].copy()
+                if stimulus[each]['position'] == (float(mod_attr_val['screen_pos'].values.screen_x.values), float(mod_attr_val['screen_pos'].values.screen_y.values)):
+                    vis_delay = stimulus[each].get('vis_delay')
+                    stim = stimulus[each].copy()
                     stim.update({'cmd': mod_attr_val['cmd']})
             except (AttributeError, KeyError):
                 raise ACTRError("The chunk in the visual buffer is not defined correctly. It is not possible to move attention.")
-- 
2.43.0


From 5d86a96a7b376f639ed7e105d292718b139bfa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 20/66] fix: automatic vision does not mix features of the
 previous object into the new one

---
 pyactr/productions.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 562ba2e..9b28598 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -799,10 +799,9 @@ class ProductionRules:
         if self.model_parameters["automatic_visual_search"]:
             newchunk, stim = visualbuffer.automatic_search(stim)
         if newchunk:
-            if visualbuffer:
-                visualbuffer.modify(newchunk, found_stim=stim)
-            else:
-                visualbuffer.add(newchunk, stim, time)
+            for chunk in list(visualbuffer):
+                visualbuffer.discard(chunk) #the new location replaces the old one
+            visualbuffer.add(newchunk, stim, time)
             yield Event(roundtime(time), name, f"ENCODED LOCATION: {newchunk}")
         else:
             yield Event(roundtime(time), name, self._UNKNOWN)
@@ -826,10 +825,9 @@ class ProductionRules:
         visualbuffer.state = visualbuffer._FREE
         visualbuffer.autoattending = visualbuffer._FREE
         if newchunk:
-            if visualbuffer:
-                visualbuffer.modify(newchunk)
-            else:
-                visualbuffer.add(newchunk, time)
+            for chunk in list(visualbuffer):
+                visualbuffer.discard(chunk) #the new object replaces the old one
+            visualbuffer.add(newchunk, time)
             yield Event(roundtime(time), name, f"AUTOMATIC BUFFERING: {str(newchunk)}")
 
     def visualshift(self, name, visualbuffer, otherchunk, temp_actrvariables, time):
-- 
2.43.0


From f60126a8f2b3832fe021ffd0b0d491448d1c9f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 21/66] fix: a chunk of an extended visual type can be modified
 by a pattern of the special type

---
 pyactr/buffers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyactr/buffers.py b/pyactr/buffers.py
index 875ada4..977217b 100644
--- a/pyactr/buffers.py
+++ b/pyactr/buffers.py
@@ -106,6 +106,9 @@ class Buffer(collections.abc.MutableSet):
             raise utilities.ACTRError(f"The modification by the chunk '{otherchunk} is impossible; {arg}")
         elem_attr_val = {x[0]: x[1] for x in elem}
         elem_attr_val.update(mod_attr_val) #updates original chunk with attr-val from otherchunk
-        mod_chunk = chunks.Chunk(otherchunk.typename, **elem_attr_val) #creates new chunk
+        typename = otherchunk.typename
+        if typename in utilities.SPECIALCHUNKTYPES and not set(elem_attr_val).issubset(otherchunk._asdict()):
+            typename = elem.typename #a special chunk type cannot be extended with the remaining slots of the original chunk
+        mod_chunk = chunks.Chunk(typename, **elem_attr_val) #creates new chunk
 
         self._data.add(mod_chunk) #put chunk directly into buffer
-- 
2.43.0


From 407b1e838c03b45e5a397f6d00a71b377c400535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 22/66] fix: objects can be searched by visible features of
 extended visual types

---
 pyactr/vision.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 675148c..dfee778 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -99,8 +99,12 @@ class VisualLocation(buffers.Buffer):
             mod_attr_val = {x[0]: utilities.check_bound_vars(actrvariables, x[1], negative_impossible=False) for x in otherchunk.removeunused()}
         except utilities.ACTRError as arg:
             raise utilities.ACTRError(f"The chunk '{otherchunk}' is not defined correctly; {arg}")
-        chunk_used_for_search = chunks.Chunk(utilities.VISUALLOCATION, **mod_attr_val)
-            
+        search_typename = utilities.VISUALLOCATION
+        if not set(mod_attr_val).issubset(chunks.Chunk(search_typename)._asdict()):
+            search_typename = otherchunk.typename #an extended type, needed for features that a special chunk type does not have
+        chunk_used_for_search = chunks.Chunk(search_typename, **mod_attr_val)
+        value_used_for_search = mod_attr_val.get("value", chunk_used_for_search.EmptyValue())
+
         found = None
         found_stim = None
         closest = float("inf")
@@ -123,7 +127,7 @@ class VisualLocation(buffers.Buffer):
                 pass
 
             #check value in text; in principle, you can search based on any value, so this is more powerful than actual visual search
-            if chunk_used_for_search.value != chunk_used_for_search.EmptyValue() and chunk_used_for_search.value.values != self.environment.stimulus[each]["text"]:
+            if value_used_for_search != chunk_used_for_search.EmptyValue() and value_used_for_search.values != self.environment.stimulus[each]["text"]:
                 continue
 
             position = (int(self.environment.stimulus[each]['position'][0]), int(self.environment.stimulus[each]['position'][1]))
-- 
2.43.0


From 6a219bef921ff46d20bbea3e8bb9a633a5a27d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 23/66] fix: negated text and positions are respected in visual
 search

---
 pyactr/vision.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index dfee778..2710452 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -127,8 +127,11 @@ class VisualLocation(buffers.Buffer):
                 pass
 
             #check value in text; in principle, you can search based on any value, so this is more powerful than actual visual search
-            if value_used_for_search != chunk_used_for_search.EmptyValue() and value_used_for_search.values != self.environment.stimulus[each]["text"]:
-                continue
+            if value_used_for_search != chunk_used_for_search.EmptyValue():
+                if value_used_for_search.values and value_used_for_search.values != self.environment.stimulus[each]["text"]:
+                    continue
+                if self.environment.stimulus[each]["text"] in value_used_for_search.negvalues:
+                    continue
 
             position = (int(self.environment.stimulus[each]['position'][0]), int(self.environment.stimulus[each]['position'][1]))
 
@@ -144,6 +147,18 @@ class VisualLocation(buffers.Buffer):
             except (TypeError, ValueError, AttributeError):
                 pass
 
+            #check negated positions
+            try:
+                if str(position[0]) in chunk_used_for_search.screen_x.negvalues:
+                    continue
+            except AttributeError:
+                pass
+            try:
+                if str(position[1]) in chunk_used_for_search.screen_y.negvalues:
+                    continue
+            except AttributeError:
+                pass
+
             #check on x and y relative positions
             try: 
                 if chunk_used_for_search.screen_x.values[0] == utilities.VISIONSMALLER and int(chunk_used_for_search.screen_x.values[1:]) <= position[0]:
-- 
2.43.0


From 22c79d308088bd91ad9ee8e16bba37e49663fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 24/66] fix: a relative position in visual search can be given
 by a variable

---
 pyactr/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 32c1068..7f21236 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -293,6 +293,8 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
                         neg_result.add(actrvariables[neg_var])
                     except KeyError:
                         raise ACTRError(f"Object '{var[1:]}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
+        if x not in {"values", "variables"} or not getattr(varval, x):
+            continue #only values and variables contribute to the result
         if result and temp_result in {VISIONGREATER, VISIONSMALLER} or result in {VISIONGREATER, VISIONSMALLER}:
             result = "".join(sorted([temp_result, result], reverse=True))
         elif result and temp_result != result:
-- 
2.43.0


From 19d7bc0b803bb8ab4c1229fdb6748a58b458c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 25/66] fix: the object marked as attended is the one that
 visual search found

---
 pyactr/vision.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 2710452..9cc24b9 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -213,10 +213,10 @@ class VisualLocation(buffers.Buffer):
             except (TypeError, AttributeError):
                 pass
 
-            found_stim = self.environment.stimulus[each]
-            visible_chunk = chunk_from_stimulus(found_stim, "visual_location", position=False)
+            visible_chunk = chunk_from_stimulus(self.environment.stimulus[each], "visual_location", position=False)
 
             if visible_chunk <= chunk_used_for_search:
+                found_stim = self.environment.stimulus[each]
                 found = chunk_from_stimulus(found_stim, "visual_location", position=True)
                 current_x = position[0]
                 current_y = position[1]
-- 
2.43.0


From 66e36d36af117f8a1206e07320f891fa764d2dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 26/66] fix: the closest object is searched for also if the
 request names only its vertical position

---
 pyactr/vision.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 9cc24b9..5775511 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -195,7 +195,13 @@ class VisualLocation(buffers.Buffer):
 
             #check on closest
             try: 
-                if (chunk_used_for_search.screen_x.values == utilities.VISIONCLOSEST or chunk_used_for_search.screen_y.values == utilities.VISIONCLOSEST) and utilities.calculate_pythagorean_distance(self.environment.current_focus, position) > closest:
+                if chunk_used_for_search.screen_x.values == utilities.VISIONCLOSEST and utilities.calculate_pythagorean_distance(self.environment.current_focus, position) > closest:
+                    continue
+            except (TypeError, AttributeError):
+                pass
+
+            try: 
+                if chunk_used_for_search.screen_y.values == utilities.VISIONCLOSEST and utilities.calculate_pythagorean_distance(self.environment.current_focus, position) > closest:
                     continue
             except (TypeError, AttributeError):
                 pass
-- 
2.43.0


From a566ed5eb6fe21aba8940bbd4f45591e8071f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 27/66] fix: the visual buffer is cleared at the moment when
 the new object is encoded

---
 pyactr/productions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 9b28598..1e0475b 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -713,6 +713,7 @@ class ProductionRules:
         """
         visualbuffer.state = visualbuffer._BUSY
         time += extra_time
+        yield Event(roundtime(time), name, self._UNKNOWN)
         visualbuffer.current_focus = site #use it if visual focus is fully attention-based (internal) and not based on eye position; site is the position of attention
         yield from self.clear(name, visualbuffer, None, temp_actrvariables, time, freeing=False)
         visualbuffer.add(chunk, time)
-- 
2.43.0


From 617d7e74f7c6c6add376a636224b6e81694e1845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 28/66] fix: automatic vision takes place if the screen changes
 when the first rule fires

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 46faef0..fe7415f 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -74,7 +74,7 @@ class Simulation:
         
         self.__proc_activate = self.__simulation.event() #special event (lock) for procedural module
         
-        self.__procs_started = [] #list of processes that are started as a result of production rules
+        self.__procs_started = self.__pr.procs #list of processes that are started as a result of production rules
 
         #activate environment process, if environment present
         if self.__env:
-- 
2.43.0


From 03a0ec1606a296972515bf8a45403f7186c8fdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 29/66] fix: a request to vision made at the moment the screen
 changes does not clash with automatic vision

---
 pyactr/simulation.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index fe7415f..72fca68 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -117,7 +117,6 @@ class Simulation:
             for name in self.__buffers:
                 if isinstance(self.__buffers[name], vision.VisualLocation) and self.__buffers[name].environment == self.__env:
                     proc = (name, self.__pr.automatic_search(name, self.__buffers[name], list(self.__env.stimulus.values()), self.__simulation.now))
-                    self.__procs_started.append(proc)
                 elif isinstance(self.__buffers[name], vision.Visual) and self.__buffers[name].environment == self.__env and self.__buffers[name].attend_automatic:
                     try:
                         cf = tuple(self.__buffers[name].current_focus)
@@ -125,9 +124,11 @@ class Simulation:
                         pass
                     else:
                         proc = (name, self.__pr.automatic_buffering(name, self.__buffers[name], list(self.__env.stimulus.values()), self.__simulation.now))
-                        self.__procs_started.append(proc)
                 else:
                     continue
+                if any(each != self.__pr._PROCEDURAL and each[0] == name for each in self.__procs_started):
+                    continue #the module was requested to do something at this moment, which has precedence
+                self.__procs_started.append(proc)
                 if not self.__dict_extra_proc_activate[proc[0]].triggered:
                     self.__interruptibles[proc[0]] = proc[1] #add new process interruptibles if the process can be interrupted according to ACT-R
                     self.__dict_extra_proc_activate[proc[0]].succeed() #activate modules that are used if not active
@@ -239,7 +240,7 @@ class Simulation:
             except ValueError:
                 yield self.__proc_activate #wait for proc_activate
             else:
-                for proc in self.__procs_started:
+                for proc in list(self.__procs_started):
                     name = proc[0]
                     if not self.__dict_extra_proc_activate[name].triggered:
                         if proc[1].__name__ in self.__pr._INTERRUPTIBLE:
@@ -247,8 +248,12 @@ class Simulation:
                         self.__dict_extra_proc_activate[name].succeed() #activate modules that were used if not active
                     else:
                         if name in self.__interruptibles and proc[1] != self.__interruptibles[name]:
+                            superseded = (name, self.__interruptibles[name])
                             self.__interruptibles[name] = proc[1]
-                            self.__dict_extra_proc[name].interrupt() #otherwise, interrupt them
+                            if superseded in self.__procs_started and superseded[1].__name__ not in self.__pr._INTERRUPTIBLE:
+                                self.__procs_started.remove(superseded) #automatic vision triggered at this moment, not carried out yet
+                            else:
+                                self.__dict_extra_proc[name].interrupt() #otherwise, interrupt them
             for _ in range(5):
                 yield self.__simulation.timeout(0) #move procedural process to the bottom; right now, this is a hack - it yields 0 timeout five times, so other processes get enough cycles to start etc.
             pro = self.__simulation.process(self.__localprocess__(self.__pr._PROCEDURAL, self.__pr.procedural_process(self.__simulation.now)))
-- 
2.43.0


From bd5fd4bba194e812e056eff9b964737178613a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 30/66] fix: the motor processor stays busy if another movement
 is prepared or waits for its initiation

---
 pyactr/productions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 1e0475b..13a35f0 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -947,7 +947,8 @@ class ProductionRules:
         
         yield Event(roundtime(time), name, 'INITIATION COMPLETE')
         
-        motorbuffer.processor = motorbuffer._FREE
+        if motorbuffer.last_key[1] == finish and motorbuffer.preparation == motorbuffer._FREE: #unless the next movement is being prepared or waits for its initiation
+            motorbuffer.processor = motorbuffer._FREE
         
         time += execution
         yield Event(roundtime(time), name, self._UNKNOWN)
-- 
2.43.0


From e6daa01f68ef385c9795ef6a14a19cb33012af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 31/66] fix: visual_location is free after automatic visual
 search

---
 pyactr/productions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 13a35f0..beb526a 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -795,7 +795,6 @@ class ProductionRules:
         """
         Automatic search of environment stim in the visual buffer. Automatic search is never found by production rules. Production rules are bypassed, this is called directly by simulation.
         """
-        visualbuffer.state = visualbuffer._BUSY
         newchunk = None
         if self.model_parameters["automatic_visual_search"]:
             newchunk, stim = visualbuffer.automatic_search(stim)
@@ -803,6 +802,7 @@ class ProductionRules:
             for chunk in list(visualbuffer):
                 visualbuffer.discard(chunk) #the new location replaces the old one
             visualbuffer.add(newchunk, stim, time)
+            visualbuffer.state = visualbuffer._FREE
             yield Event(roundtime(time), name, f"ENCODED LOCATION: {newchunk}")
         else:
             yield Event(roundtime(time), name, self._UNKNOWN)
-- 
2.43.0


From 2a3b201cab24f300203ded4d6c02300a1d5ad6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 32/66] fix: a buffer whose module is busy stays so if a rule
 clears, modifies or overwrites its content

---
 pyactr/productions.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index beb526a..7aac604 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -584,6 +584,8 @@ class ProductionRules:
             updated = self.buffers[submodule_name]
             production = getattr(self, self._RHSCONVENTIONS[code])(submodule_name, updated, dictionary[key], self.__actrvariables, time)
 
+            if updated.state == updated._BUSY and production.__name__ not in self._INTERRUPTIBLE:
+                production = self.keep_state(updated, production) #the module goes on with what it was requested to do before
             updated.state = updated._BUSY
 
             if production.__name__ in self._INTERRUPTIBLE:
@@ -598,6 +600,20 @@ class ProductionRules:
                 if submodule_name in self.buffers:
                     self.procs.append((submodule_name, self.clear(submodule_name, self.buffers[submodule_name], None, self.__actrvariables, time)))
 
+    def keep_state(self, updated, production):
+        """
+        Carry out production without changing the state of the updated buffer.
+        """
+        while True:
+            state = updated.state
+            try:
+                event = next(production)
+            except StopIteration:
+                updated.state = state
+                break
+            updated.state = state
+            yield event
+
     def extra_test(self, name, tested, test, temp_actrvariables, time):
         """
         Add an extra test to a buffer.
-- 
2.43.0


From a94414cc043f718ac20555e8fd106a667effe41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 33/66] fix: an attention shift that ends while the next one is
 prepared does not make the visual module free

---
 pyactr/productions.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 7aac604..9f8df9d 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -723,9 +723,9 @@ class ProductionRules:
         updated.state = updated._FREE
         yield Event(roundtime(time), name, f"WROTE A CHUNK: {str(created_elem)}")
 
-    def visualencode(self, name, visualbuffer, chunk, temp_actrvariables, time, extra_time, site):
+    def visualencode(self, name, visualbuffer, chunk, temp_actrvariables, time, extra_time, site, freeing=True):
         """
-        Encode a visual object.
+        Encode a visual object. The 'freeing' argument specifies whether the state should be considered FREE afterwards.
         """
         visualbuffer.state = visualbuffer._BUSY
         time += extra_time
@@ -733,7 +733,8 @@ class ProductionRules:
         visualbuffer.current_focus = site #use it if visual focus is fully attention-based (internal) and not based on eye position; site is the position of attention
         yield from self.clear(name, visualbuffer, None, temp_actrvariables, time, freeing=False)
         visualbuffer.add(chunk, time)
-        visualbuffer.state = visualbuffer._FREE
+        if freeing:
+            visualbuffer.state = visualbuffer._FREE
         yield Event(roundtime(time), name, f"ENCODED VIS OBJECT:'{str(chunk)}'")
 
     def retrieveorset(self, name, updated, otherchunk, temp_actrvariables, time):
@@ -889,7 +890,8 @@ class ProductionRules:
         preparation = extra_time[1]
         execution = extra_time[2]
         
-        visualbuffer.last_mvt = time + execution
+        finish = time + execution
+        visualbuffer.last_mvt = finish
 
         time += execution
 
@@ -898,10 +900,12 @@ class ProductionRules:
         yield Event(roundtime(time), name, f"SHIFT COMPLETE TO POSITION: {str(visualbuffer.current_focus)}")
         if encoding > preparation+execution:
             newchunk, extra_time, _ = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters, stimulus=stimulus)
-            yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site)
-        visualbuffer.processor = visualbuffer._FREE
-        visualbuffer.execution = visualbuffer._FREE
-        visualbuffer.state = visualbuffer._FREE
+            yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site, freeing=False)
+        if visualbuffer.last_mvt == finish: #unless the next movement is executed or waits for this one
+            visualbuffer.execution = visualbuffer._FREE
+            if visualbuffer.preparation == visualbuffer._FREE: #unless the next movement is being prepared
+                visualbuffer.processor = visualbuffer._FREE
+                visualbuffer.state = visualbuffer._FREE
         visualbuffer.attend_automatic = True
         #the following lines - if we think that automatic buffering should be repeated after being done with shift
         #if visualbuffer.attend_automatic:
-- 
2.43.0


From 98c875fde9c462147b86541f736c06fb0f145c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 34/66] fix: cancelling a prepared attention shift frees the
 preparation and the processor of the visual module

---
 pyactr/productions.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 9f8df9d..3cd08ba 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -776,6 +776,7 @@ class ProductionRules:
                 ret = yield from self.visualshift(name, updated, otherchunk, temp_actrvariables, time)
                 yield ret #visual action returns value, namely, its continuation method
             elif mod_attr_val['cmd'].values == utilities.CMDCLEAR:
+                self.cancel_preparation(updated)
                 updated.stop_automatic_buffering()
                 updated.state = updated._FREE
                 yield Event(roundtime(time), name, "VISUAL STOPPED FROM AUTOMATIC BUFFERING AT ITS CURRENT FOCUS")
@@ -828,6 +829,7 @@ class ProductionRules:
         """
         Automatic buffering of environment stim in the visual buffer. Automatic buffering is never found by production rules. Production rules are bypassed, this is called directly by simulation.
         """
+        self.cancel_preparation(visualbuffer)
         visualbuffer.state = visualbuffer._BUSY
         visualbuffer.autoattending = visualbuffer._BUSY
         foveal_distance = utilities.calculate_distance(1, visualbuffer.environment.size, visualbuffer.environment.simulated_screen_size, visualbuffer.environment.viewing_distance)
@@ -848,6 +850,14 @@ class ProductionRules:
             visualbuffer.add(newchunk, time)
             yield Event(roundtime(time), name, f"AUTOMATIC BUFFERING: {str(newchunk)}")
 
+    def cancel_preparation(self, visualbuffer):
+        """
+        Something else takes place in the visual module, so the attention shift that was prepared (if any) is not carried out.
+        """
+        visualbuffer.preparation = visualbuffer._FREE
+        if visualbuffer.execution == visualbuffer._FREE:
+            visualbuffer.processor = visualbuffer._FREE
+
     def visualshift(self, name, visualbuffer, otherchunk, temp_actrvariables, time):
         """
         Carry out preparation of visual shift.
-- 
2.43.0


From 2a9599d571e1125c5094b25e566c4ce826798ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 35/66] fix: a delayed modification of a buffer whose chunk was
 cleared in the meantime has no effect instead of failing

---
 pyactr/productions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 3cd08ba..5b63e10 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -684,9 +684,13 @@ class ProductionRules:
         Modify a buffer chunk. Unlike plain modify, this might add extra time to changing the chunk in the buffer.
         """
         modified.state = modified._BUSY
+        full = bool(modified)
         extra_time = utilities.calculate_setting_time(modified)
         time += extra_time
         yield Event(roundtime(time), name, self._UNKNOWN)
+        if full and not modified: #the chunk was cleared from the buffer in the meantime
+            modified.state = modified._FREE
+            return
         if self.model_parameters['production_compilation']:
             RHSdict = otherchunk._asdict()
             RHSdict = {item[0]: item[1] for item in RHSdict.items() if item[1] != chunks.Chunk.EmptyValue()} #delete None values, they will be copied from LHSdict
-- 
2.43.0


From f164f89d922f0f4f951572b8905ded9fc6f36075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 36/66] fix: strict harvesting of a buffer does not abort the
 retrieval, request or attention shift its module carries out

---
 pyactr/productions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 5b63e10..12267d2 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -598,7 +598,12 @@ class ProductionRules:
             for key in temp_actrvariables:
                 submodule_name = key[1:]
                 if submodule_name in self.buffers:
-                    self.procs.append((submodule_name, self.clear(submodule_name, self.buffers[submodule_name], None, self.__actrvariables, time)))
+                    harvested = self.buffers[submodule_name]
+                    production = self.clear(submodule_name, harvested, None, self.__actrvariables, time)
+                    if harvested.state == harvested._BUSY:
+                        yield from self.keep_state(harvested, production) #the module goes on with what it was requested to do before
+                    else:
+                        self.procs.append((submodule_name, production))
 
     def keep_state(self, updated, production):
         """
-- 
2.43.0


From 30773ae968d8bb86882092c7fd0dc1783171fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 37/66] fix: the visual module is free when the last of
 overlapping attention shifts is encoded

---
 pyactr/productions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 12267d2..0b2ff64 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -922,9 +922,9 @@ class ProductionRules:
             yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site, freeing=False)
         if visualbuffer.last_mvt == finish: #unless the next movement is executed or waits for this one
             visualbuffer.execution = visualbuffer._FREE
-            if visualbuffer.preparation == visualbuffer._FREE: #unless the next movement is being prepared
-                visualbuffer.processor = visualbuffer._FREE
-                visualbuffer.state = visualbuffer._FREE
+        if visualbuffer.execution == visualbuffer._FREE and visualbuffer.preparation == visualbuffer._FREE: #unless the next movement is being prepared or executed
+            visualbuffer.processor = visualbuffer._FREE
+            visualbuffer.state = visualbuffer._FREE
         visualbuffer.attend_automatic = True
         #the following lines - if we think that automatic buffering should be repeated after being done with shift
         #if visualbuffer.attend_automatic:
-- 
2.43.0


From 571af685a1396657d468cc1c20ecf82095f68338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 38/66] fix: a chunk without slots can be retrieved

---
 pyactr/declarative.py | 4 ++--
 pyactr/productions.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 78121b8..1aed61b 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -255,12 +255,12 @@ class DecMemBuffer(buffers.Buffer):
                     retrieved = chunk
                     extra_time = 0
 
-        if not retrieved:
+        if retrieved is None:
             if model_parameters["subsymbolic"]:
                 extra_time = utilities.retrieval_latency(model_parameters["retrieval_threshold"], model_parameters["latency_factor"],  model_parameters["latency_exponent"])
             else:
                 extra_time = model_parameters["rule_firing"]
-        if self.__finst and retrieved: #a failed retrieval is not remembered
+        if self.__finst and retrieved is not None: #a failed retrieval is not remembered
             self.recent.append(retrieved)
             if self.__finst < len(self.recent):
                 self.recent.popleft()
diff --git a/pyactr/productions.py b/pyactr/productions.py
index 0b2ff64..47f142b 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -804,7 +804,7 @@ class ProductionRules:
         retrieved_elem, extra_time = retrieval.retrieve(time, otherchunk, temp_actrvariables, self.buffers, self.extra_tests.get(name, {}), self.model_parameters)
         time += extra_time
         yield Event(roundtime(time), name, self._UNKNOWN)
-        if retrieved_elem:
+        if retrieved_elem is not None:
             yield Event(roundtime(time), name, 'CLEARED')
             retrieval.add(retrieved_elem, time)
             retrieval.state = retrieval._FREE
-- 
2.43.0


From 2d74174ba8f70211ba8880794773c13b82a35a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 39/66] fix: a simulation in real time starts at initial_time

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 72fca68..e1522c2 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -51,7 +51,7 @@ class Simulation:
         self.__realtime = realtime
 
         if not self.gui and realtime:
-            self.__simulation = simpy.RealtimeEnvironment()
+            self.__simulation = simpy.RealtimeEnvironment(initial_time=round(initial_time, 4))
 
         self.__trace = trace
 
-- 
2.43.0


From 59a11c18fb6f6124b47dabd53cbdd5008b5bb06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 40/66] fix: the first eye movement of a simulation that starts
 at a negative time does not wait until time 0

---
 pyactr/vision.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 5775511..8cef233 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -277,7 +277,7 @@ class Visual(buffers.Buffer):
         self.execution = self._FREE
         self.autoattending = self._FREE
         self.attend_automatic = True #the current focus automatically attends
-        self.last_mvt = 0
+        self.last_mvt = float("-inf")
 
         #parameters
         self.model_parameters = {}
-- 
2.43.0


From fe560e2d334d94ba2a97bec94ba05e20c2df83d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 41/66] fix: models do not share the dictionary of buffers that
 spread activation

---
 pyactr/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index d3e1fbb..cb743a9 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -2,6 +2,8 @@
 ACT-R Model.
 """
 
+import copy
+
 import pyparsing
 
 from pyactr import chunks, declarative, goals, motor, productions, simulation, utilities, vision
@@ -97,7 +99,7 @@ class ACTRModel:
         self.productions = productions.Productions()
         self.__similarities = {}
 
-        self.model_parameters = self.MODEL_PARAMETERS.copy()
+        self.model_parameters = copy.deepcopy(self.MODEL_PARAMETERS)
 
         try:
             if not set(model_parameters.keys()).issubset(set(self.MODEL_PARAMETERS.keys())):
-- 
2.43.0


From a17037767747a7b9878925bcf9cfab0436f32a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 42/66] fix: retrieval uses the similarities of its own model,
 not of the model simulated last

---
 pyactr/model.py       | 2 +-
 pyactr/productions.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index cb743a9..cc0230f 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -322,7 +322,7 @@ class ACTRModel:
         
         self.productions.used_rulenames = {} # remove any previously stored rules for utility learning
 
-        used_productions = productions.ProductionRules(self.productions, self.__buffers, decmem, self.model_parameters)
+        used_productions = productions.ProductionRules(self.productions, self.__buffers, decmem, self.model_parameters, self.__similarities)
 
         chunks.Chunk._similarities = self.__similarities
 
diff --git a/pyactr/productions.py b/pyactr/productions.py
index 47f142b..10df27f 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -459,7 +459,7 @@ class ProductionRules:
     _LHSCONVENTIONS = utilities._LHSCONVENTIONS
     _INTERRUPTIBLE = utilities._INTERRUPTIBLE
 
-    def __init__(self, rules, buffers, dm, model_parameters):
+    def __init__(self, rules, buffers, dm, model_parameters, similarities=None):
         self.__actrvariables = {} #variables in a fired rule
         self.rules = rules
         self.ordered_rulenames = sorted(rules.keys(), key=lambda x: rules[x]['utility'], reverse=True) #rulenames ordered by utilities -- this speeds up rule selection when utilities are used
@@ -479,6 +479,8 @@ class ProductionRules:
 
         self.model_parameters = model_parameters
 
+        self.similarities = similarities #similarities of chunks, used in partial matching
+
     def procedural_process(self, start_time=0):
         """
         Process that is carrying a production. Proceeds in steps: conflict resolution -> rule selection -> rule firing; or conflict resolution -> no rule found. Start_time specifies when production starts in discrete event simulation.
@@ -801,6 +803,8 @@ class ProductionRules:
         """
         #starting process
         yield Event(roundtime(time), name, 'START RETRIEVAL')
+        if self.similarities is not None:
+            chunks.Chunk._similarities = self.similarities #another model could have been simulated in the meantime
         retrieved_elem, extra_time = retrieval.retrieve(time, otherchunk, temp_actrvariables, self.buffers, self.extra_tests.get(name, {}), self.model_parameters)
         time += extra_time
         yield Event(roundtime(time), name, self._UNKNOWN)
-- 
2.43.0


From 9043efffa710dbf5314f1d7f71a699eec786870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:54 +0000
Subject: [PATCH 43/66] fix: declarative memory can be created from and
 extended with any iterable of chunks; a rejected collection adds nothing

---
 pyactr/declarative.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 1aed61b..61ef3a2 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -21,10 +21,11 @@ class DecMem(collections.abc.MutableMapping):
         self.unrestricted_number_chunks = collections.Counter() # counter for chunks, used to store strength association
         self.activations  = {}
         if data is not None:
-            try:
-                self.update(data)
-            except ValueError:
-                self.update({x:0 for x in data})
+            if not isinstance(data, collections.abc.Mapping):
+                data = tuple(data)
+                if all(isinstance(x, chunks.Chunk) for x in data):
+                    data = {x:0 for x in data}
+            self.update(data)
 
     def __contains__(self, elem):
         return elem in self._data
@@ -88,22 +89,20 @@ class DecMem(collections.abc.MutableMapping):
 
         element can be either one chunk, or an iterable of chunks.
         """
+        if isinstance(element, chunks.Chunk):
+            elements = (element,)
+        elif isinstance(element, collections.abc.Iterable) and not isinstance(element, str):
+            elements = tuple(element)
+        else:
+            elements = None
+        if elements is None or not all(isinstance(x, chunks.Chunk) for x in elements):
+            raise utilities.ACTRError(f"Only chunks can be added as attributes to Declarative Memory; '{element}' is not a chunk or an iterable of chunks")
         if isinstance(time, collections.abc.Iterable):
-            try:
-                new = np.concatenate((self.setdefault(element, np.array([])), np.array(time)))
-                self[element] = new
-            except TypeError:
-                for x in element:
-                    new = np.concatenate((self.setdefault(x, np.array([])), np.array(time)))
-                    self[x] = new
+            times = np.array(time)
         else:
-            try:
-                new = np.append(self.setdefault(element, np.array([])), round(float(time), 4))
-                self[element] = new
-            except TypeError:
-                for x in element:
-                    new = np.append(self.setdefault(x, np.array([])), round(float(time), 4))
-                    self[x] = new
+            times = np.array([round(float(time), 4)])
+        for x in elements:
+            self[x] = np.concatenate((self.setdefault(x, np.array([])), times))
 
     def copy(self):
         """
-- 
2.43.0


From 386e7ca9f4112d0d3b830feadb328d8b16963aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 44/66] fix: an attempt to put a non-chunk into a buffer leaves
 the content of the buffer as it was

---
 pyactr/buffers.py     | 14 +++++++++-----
 pyactr/declarative.py |  1 +
 pyactr/vision.py      |  2 ++
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyactr/buffers.py b/pyactr/buffers.py
index 977217b..4f85f83 100644
--- a/pyactr/buffers.py
+++ b/pyactr/buffers.py
@@ -57,11 +57,15 @@ class Buffer(collections.abc.MutableSet):
 
         elem must be a chunk.
         """
-        self._data = set()
-        
-        if isinstance(elem, chunks.Chunk):
-            self._data.add(elem)
-        else:
+        self._check_chunk(elem)
+        self._data = set([elem])
+
+    @staticmethod
+    def _check_chunk(elem):
+        """
+        Check that elem can be put into a buffer.
+        """
+        if not isinstance(elem, chunks.Chunk):
             raise TypeError("Only chunks can be added to Buffer")
 
     def discard(self, elem):
diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 61ef3a2..9a40fcb 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -160,6 +160,7 @@ class DecMemBuffer(buffers.Buffer):
         """
         Clear current buffer and adds a new chunk.
         """
+        self._check_chunk(elem)
         self.clear(time)
         super().add(elem)
 
diff --git a/pyactr/vision.py b/pyactr/vision.py
index 8cef233..bb9a01b 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -54,6 +54,7 @@ class VisualLocation(buffers.Buffer):
         """
         Clear current buffer (into a memory) and adds a new chunk. Decl. memory is either specified as default_harvest, when Visual is initialized, or it can be specified as the argument of harvest.
         """
+        self._check_chunk(elem)
         self.clear(time, harvest)
 
         super().add(elem)
@@ -301,6 +302,7 @@ class Visual(buffers.Buffer):
         """
         Clear current buffer (into a memory) and adds a new chunk. Decl. memory is either specified as default_harvest, when Visual is initialized, or it can be specified as the argument of harvest.
         """
+        self._check_chunk(elem)
         self.clear(time, harvest)
         super().add(elem)
 
-- 
2.43.0


From d98b63831cbaefd128a69610293ec3f1478aa7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 45/66] fix: a rejected modification leaves the content of the
 buffer as it was

---
 pyactr/buffers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/buffers.py b/pyactr/buffers.py
index 4f85f83..4483f6e 100644
--- a/pyactr/buffers.py
+++ b/pyactr/buffers.py
@@ -103,11 +103,11 @@ class Buffer(collections.abc.MutableSet):
         """
         if actrvariables == None:
             actrvariables = {}
-        elem = self._data.pop()
         try:
             mod_attr_val = {x[0]: utilities.check_bound_vars(actrvariables, x[1]) for x in otherchunk.removeunused()} #creates dict of attr-val pairs according to otherchunk
         except utilities.ACTRError as arg:
             raise utilities.ACTRError(f"The modification by the chunk '{otherchunk} is impossible; {arg}")
+        elem = self._data.pop()
         elem_attr_val = {x[0]: x[1] for x in elem}
         elem_attr_val.update(mod_attr_val) #updates original chunk with attr-val from otherchunk
         typename = otherchunk.typename
-- 
2.43.0


From f232e4a48cdaa8c928c255bb0dc8a322bc2e9e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 46/66] fix: makechunk rejects values that are iterable or not
 hashable

---
 pyactr/chunks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 3c5ecb8..4f6b227 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -457,6 +457,8 @@ def makechunk(nameofchunk="", typename="", **dictionary):
             pass
         elif isinstance(dictionary[key], utilities.VarvalClass):
             pass
+        elif (isinstance(dictionary[key], collections.abc.Iterable) and not isinstance(dictionary[key], str)) or not isinstance(dictionary[key], collections.abc.Hashable):
+            raise ValueError(f"The value of a chunk slot must be hashable and not iterable; you are using an illegal type for the value of the chunk slot {key}, namely {type(dictionary[key])}")
         else:
             try:
                 temp_dict = utilities.stringsplitting(str(dictionary[key]))
-- 
2.43.0


From 79821e9de1a9fa6c4d750b73b3e782cbb12f77c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 47/66] fix: the slot isa and the extension of a special chunk
 type by include are rejected in chunk types

---
 pyactr/chunks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 4f6b227..0cbd3ba 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -21,7 +21,7 @@ def chunktype(cls_name, field_names, defaults=None, include=None):
     :param include: a string or list of strings naming existing chunk type(s) to inherit slot names from
     :param defaults: default values for the slots, given as an iterable, counting from the last element
     """
-    if cls_name in utilities.SPECIALCHUNKTYPES and field_names != utilities.SPECIALCHUNKTYPES[cls_name]:
+    if cls_name in utilities.SPECIALCHUNKTYPES and (field_names != utilities.SPECIALCHUNKTYPES[cls_name] or include):
         raise ACTRError(f"You cannot redefine slots of the chunk type '{cls_name}'; you can only use the slots '{utilities.SPECIALCHUNKTYPES[cls_name]}'")
 
     try:
@@ -30,7 +30,7 @@ def chunktype(cls_name, field_names, defaults=None, include=None):
         pass  # assume it's already a sequence of identifiers
     field_names = tuple(sorted(name + "_" for name in field_names))
     for each in field_names:
-        if each == "ISA" or each == "isa":
+        if each == "ISA_" or each == "isa_":
             raise ACTRError("You cannot use the slot 'isa' in your chunk. That slot is used to define chunktypes.")
 
     # If an ancestor was specified, union the field names and re-sort
-- 
2.43.0


From cdfacc9c9ba7f964f89f0a8958241eb938ff5f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 48/66] fix: a buffer is not created with a non-chunk or with
 negative finst

---
 pyactr/buffers.py     | 2 ++
 pyactr/declarative.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyactr/buffers.py b/pyactr/buffers.py
index 4483f6e..729e2a5 100644
--- a/pyactr/buffers.py
+++ b/pyactr/buffers.py
@@ -23,6 +23,8 @@ class Buffer(collections.abc.MutableSet):
         else:
             self._data = data
         assert len(self) <= 1, "Buffer can carry at most one element"
+        for elem in self._data:
+            self._check_chunk(elem)
 
     @property
     def dm(self):
diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 9a40fcb..dd73219 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -122,7 +122,7 @@ class DecMemBuffer(buffers.Buffer):
     def __init__(self, decmem=None, data=None, finst=0):
         buffers.Buffer.__init__(self, decmem, data)
         self.recent = collections.deque()
-        self.__finst = finst
+        self.finst = finst
         self.activation = None #activation of the last retrieved element
 
         #parameters
-- 
2.43.0


From f0e1dd1af5d8fa03aae36e37180292607a1990bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 49/66] fix: the command None of the visual buffer is rejected
 like a missing command

---
 pyactr/productions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 10df27f..fc33872 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -781,7 +781,7 @@ class ProductionRules:
             yield Event(roundtime(time), name, f"ENCODED LOCATION:'{str(chunk)}'")
         elif isinstance(updated, vision.Visual):
             mod_attr_val = {x[0]: utilities.check_bound_vars(temp_actrvariables, x[1]) for x in otherchunk.removeunused()}
-            if (not mod_attr_val['cmd'].values) or mod_attr_val['cmd'].values not in utilities.CMDVISUAL:
+            if mod_attr_val['cmd'].values in {utilities.EMPTYVALUE, str(utilities.EMPTYVALUE)} or mod_attr_val['cmd'].values not in utilities.CMDVISUAL:
                 raise ACTRError(f"Visual module received no command or an invalid command: '{mod_attr_val['cmd'].values}'. The valid commands are: '{utilities.CMDVISUAL}'")
             if mod_attr_val['cmd'].values == utilities.CMDMOVEATTENTION:
                 ret = yield from self.visualshift(name, updated, otherchunk, temp_actrvariables, time)
-- 
2.43.0


From 56785732ae0a35fefdf2da31f6fcdb6930d065cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:20 +0000
Subject: [PATCH 50/66] fix: a compiled rule does what its parents did one
 after the other

---
 pyactr/productions.py | 298 ++++++++++++++++++++----------------------
 pyactr/utilities.py   | 147 ++++++++-------------
 2 files changed, 195 insertions(+), 250 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index fc33872..2515817 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -118,163 +118,133 @@ class Productions(collections.UserDict):
         else:
             self.rules[key] = Production(rule=value["rule"], utility=self.__DFT_UTILITY, reward=self.__DFT_REWARD)
 
-    def __collapse__(self, rule1, rule2, slotvals, retrieval):
+    def __merged_chunk__(self, typenames, dictionary, default=""):
         """
-        Collapses 2 rules into 1.
+        Make a chunk of the first type that has all the slots in dictionary.
         """
+        for typename in typenames:
+            if set(dictionary).issubset(slot for slot, _ in chunks.Chunk(typename)):
+                return chunks.Chunk(typename, **dictionary)
+        return chunks.makechunk("", default, **dictionary)
+
+    def __collapse__(self, rule1, rule2, completed, retrieved, buffers):
+        """
+        Collapses 2 rules into 1. completed are the buffers for which retrievals were completed before rule2, retrieved is a dict of those of them whose content was requested by rule1 and used in rule2.
+        """
+        contentactions = {"modify", "modify_request", "overwrite", "retrieveorset", "clear"} #actions that affect the content of a buffer
+
         def func():
             production1 = rule1['rule']()
             production2 = rule2['rule']()
 
             pro1 = next(production1).copy()
             pro2 = next(production2).copy()
+            actions1 = next(production1).copy()
+            actions2 = next(production2).copy()
 
-            for key in pro1:
+            tested = {key[1:]: pro1[key].typename for key in pro1 if utilities._LHSCONVENTIONS[key[0]] == "test"}
+            changed = {key[1:]: key for key in actions1 if utilities._RHSCONVENTIONS[key[0]] in contentactions}
+            implied = [] #tests of rule2 on what rule1 put in buffers
+
+            for key in pro2:
 
                 code = key[0]
                 buff = key[1:]
+                changing = utilities._RHSCONVENTIONS[changed[buff][0]] if buff in changed else None
 
-                #querying just kept
                 if utilities._LHSCONVENTIONS[code] == "query":
+                    if changing not in contentactions.difference({"modify"}):
+                        pro1[key] = {**pro1.get(key, {}), **pro2[key]}
                     continue
 
-                #here below -- testing
-                if key not in pro2:
-                    continue
+                pro2buff = {slot: utilities.splitting(varval) for slot, varval in pro2[key]}
 
-                pro2buff = pro2.pop(key)._asdict()
-                
-                pro1buff = pro1[key]._asdict()
-                
-                mod_attr_val = {}
-
-                if buff in slotvals:
-                    for slot in pro2buff:
-                        try:
-                            slotvals_slot = slotvals[buff][slot].removeunused()
-                        except (KeyError, AttributeError, TypeError):
-                            slotvals_slot = None
-                        if not slotvals_slot:
-                            varval = utilities.merge_chunkparts(pro1buff[slot], pro2buff[slot])
-                            mod_attr_val[slot] = varval
-                        else:
-                            mod_attr_val[slot] = pro1buff[slot]
-                elif buff == retrieval:
+                if buff in retrieved:
+                    implied.extend((utilities.splitting(getattr(retrieved[buff], slot, None)), varval) for slot, varval in pro2buff.items())
                     continue #test on retrieved elem from rule1 in rule2 is removed because no retrieval
-                else:
-                    for slot in pro2buff:
-                        varval = utilities.merge_chunkparts(pro1buff[slot], pro2buff[slot])
-                        mod_attr_val[slot] = varval
-
-                new_chunk = chunks.Chunk(pro1[key].typename, **mod_attr_val)
-                pro1[key] = new_chunk
 
-            #test on pro2 here below -- buffers might be in pro2 that are missing in pro1
-            for key in pro2:
-                
-                code = key[0]
-                buff = key[1:]
+                if changing and (changing != "retrieveorset" or isinstance(buffers[buff], goals.Goal)):
+                    actionbuff = actions1[changed[buff]]._asdict() if changing != "clear" else {}
+                    for slot in list(pro2buff):
+                        varval = utilities.splitting(actionbuff.get(slot))
+                        if varval != utilities.splitting(utilities.EMPTYVALUE) or changing not in {"modify", "modify_request"}:
+                            implied.append((varval, pro2buff.pop(slot)))
 
-                if utilities._LHSCONVENTIONS[code] == "query":
-                    temp_production1 = rule1['rule']()
-                    _, temp_testing = next(temp_production1), next(temp_production1)
-                    for temp_key in temp_testing:
-                        if utilities._RHSCONVENTIONS[temp_key[0]] != "modify" and utilities._RHSCONVENTIONS[temp_key[0]] != "extra_test" and temp_key[1:] == buff:
-                            break
-                    else:
-                        pro1.setdefault(key, {}).update(pro2[key])
+                if changing and not pro2buff and key not in pro1 and changing not in {"modify", "modify_request"}:
                     continue
 
-                pro2buff = pro2[key]._asdict()
-                
-                mod_attr_val = {}
-                
-                if buff in slotvals:
-                    for slot in pro2buff:
-                        try:
-                            slotvals_slot = slotvals[buff][slot].removeunused()
-                        except (KeyError, AttributeError, TypeError):
-                            slotvals_slot = None
-                        if not slotvals_slot:
-                            mod_attr_val[slot] = pro2buff[slot]
-                elif buff == retrieval:
-                    continue #test on retrieved elem from rule1 in rule2 is removed because no retrieval
-                else:
-                    mod_attr_val = pro2buff.copy()
-
-                new_chunk = chunks.Chunk(pro2[key].typename, **mod_attr_val)
-                pro1[key] = new_chunk
-
-            yield pro1
-
-            pro1 = next(production1).copy()
-            pro2 = next(production2).copy()
-            
-            #anything in pro2 should go into action
-            for key in pro2:
+                types = [pro2[key].typename]
+                if key in pro1:
+                    for slot, varval in pro1[key]:
+                        pro2buff[slot] = utilities.merge_chunkparts(varval, pro2buff.get(slot))
+                    types.insert(0, pro1[key].typename)
 
-                code = key[0]
-                buff = key[1:]
+                pro1[key] = self.__merged_chunk__(types, pro2buff)
 
-                if utilities._RHSCONVENTIONS[code] in {"execute", "clear", "extra_test"}:
-                    continue
-                
-                if buff not in slotvals:
+            #what rule2 excludes in the slots set by rule1 has to be excluded for the variables involved
+            for key in pro1:
+                if utilities._LHSCONVENTIONS[key[0]] == "query":
                     continue
+                dictionary = {slot: utilities.splitting(varval) for slot, varval in pro1[key]}
+                for varval1, varval2 in implied:
+                    for slot in dictionary:
+                        variable = dictionary[slot].variables
+                        if variable and variable == varval1.variables:
+                            dictionary[slot] = utilities.merge_chunkparts(dictionary[slot], varval2._replace(values=None, variables=None))
+                        elif variable in varval2.negvariables and not varval1.variables:
+                            dictionary[slot] = utilities.merge_chunkparts(dictionary[slot], varval1._replace(values=None, negvalues=(varval1.values or str(utilities.EMPTYVALUE),)))
+                pro1[key] = self.__merged_chunk__([pro1[key].typename], dictionary)
 
-                pro1buff = slotvals[buff]
-                
-                pro2buff = pro2[key]._asdict()
-
-                mod_attr_val = {}
-                
-                for slot in pro2buff:
-                    if pro1buff and slot in pro1buff:
-                        varval = utilities.merge_chunkparts(pro2buff[slot], pro1buff[slot])
-                        mod_attr_val[slot] = varval
-                    else:
-                        mod_attr_val[slot] = pro2buff[slot]
+            yield pro1
 
-                new_chunk = chunks.Chunk(pro2[key].typename, **mod_attr_val)
-                pro2[key] = new_chunk
+            #anything in actions2 should go into action; actions1 are added, unless they are superseded
+            for key in actions1:
 
-            #actions in pro1 here below -- buffers might be in pro1 that are missing in pro2
-            for key in pro1:
-                
                 code = key[0]
                 buff = key[1:]
-                
-                for temp_key in pro2:
-                    if temp_key[1:] == buff:
-                        key = None
-                        break
+                action = utilities._RHSCONVENTIONS[code]
 
-                if not key:
+                if buff in retrieved and action in {"retrieveorset", "extra_test"}:
                     continue
 
-                if buff == retrieval:
+                if action not in contentactions:
+                    actions2.setdefault(key, actions1[key])
                     continue
-                
-                if utilities._RHSCONVENTIONS[code] in {"execute", "clear", "extra_test"}:
-                    pro2[key] = pro1[key]
+
+                keys2 = [key2 for key2 in actions2 if key2[1:] == buff and utilities._RHSCONVENTIONS[key2[0]] in contentactions]
+
+                if not keys2:
+                    actions2[key] = actions1[key]
                     continue
 
-                pro1buff = pro1[key]._asdict()
-                
-                mod_attr_val = {}
-                for slot in pro1buff:
-                    mod_attr_val[slot] = pro1buff[slot]
+                key2 = keys2[0]
+
+                if utilities._RHSCONVENTIONS[key2[0]] in {"modify", "modify_request"} and action != "clear":
+                    pro1buff = {slot: utilities.splitting(varval) for slot, varval in actions1[key]}
+                    pro2_typename = actions2[key2].typename
+                    pro2buff = {slot: utilities.splitting(varval) for slot, varval in actions2.pop(key2)}
+                    empty = utilities.splitting(utilities.EMPTYVALUE)
+                    mod_attr_val = {**pro1buff, **{slot: varval for slot, varval in pro2buff.items() if varval != empty or slot not in pro1buff}}
+                    types = [pro2_typename, actions1[key].typename]
+                    if action in {"modify", "modify_request"}:
+                        new_key = key2
+                    elif tested.get(buff) == actions1[key].typename:
+                        new_key = key2 #the buffer is full, so it is enough to modify all the slots
+                        mod_attr_val = {slot: varval if varval != empty else varval._replace(values=str(utilities.EMPTYVALUE)) for slot, varval in mod_attr_val.items()}
+                    else:
+                        new_key = key
+                    actions2[new_key] = self.__merged_chunk__(types, mod_attr_val, types[0])
 
-                new_chunk = chunks.Chunk(pro1[key].typename, **mod_attr_val)
-                pro2[key] = new_chunk
+                elif not isinstance(buffers[buff], goals.Goal) and (action == "clear" or action == "retrieveorset" and utilities._RHSCONVENTIONS[key2[0]] == "clear" and buff not in completed):
+                    actions2[key] = actions1[key]
 
-            yield pro2
+            yield actions2
 
         return Production(rule=func, utility=self.__DFT_UTILITY, reward=self.__DFT_REWARD)
 
     def __rename__(self, name, variables):
         """
-        Rename production, so that variable names do not clash. name is used to change the variable name to minimize clash. Returns the production with the new name.
+        Rename production, so that variable names do not clash with variables. name is used to change the variable name to minimize clash. Returns the production with the new name.
         """
         def func():
             production = self[name]['rule']()
@@ -377,52 +347,65 @@ class Productions(collections.UserDict):
         """
         Rule compilation.
         """
-        slotvals = slotvals.copy()
-
         stop = self.__check_valid_compilation__(rule_name1, rule_name2, buffers)
         if stop:
             return False, False
 
-        #we have to get rid of =, ~= sign
-        modified_actrvariables = set()
-
-        #get out variables that should not be clashed
-        retrieval = None
-        for buff in slotvals:
-            if slotvals[buff]:
-                if isinstance(slotvals[buff], collections.abc.MutableSequence):
-                    retrieval = buff #store which buffer carries retrieval info that can be discarded later
-                    #if the retrieval is not gone at the end of rule_name2 -- do not compile!!! -- this catches one case in which rules should not be combined because they might yield unsafe results
-                    if buffers[buff]:
-                        return False, False
-                else:
-                    for slot in slotvals[buff]:
-                        if slotvals[buff][slot] != None:
-                            var = slotvals[buff][slot].variables
-                            if var != None:
-                                modified_actrvariables.add(var)
-
-        new_2rule = self.__rename__(rule_name2, modified_actrvariables) #rename all variables in rule_name2 to avoid var clashes
-
-        production2 = new_2rule['rule']()
-        
-        pro2 = next(production2)
-
-        matched, valued = utilities.match(pro2, slotvals, rule_name1, rule_name2)
+        production1 = self[rule_name1]['rule']()
+        pro11 = next(production1).copy()
+        pro12 = next(production1).copy()
+
+        used2 = {key[1:] for key in next(self[rule_name2]['rule']())}
+
+        completed = {buff for buff in slotvals if isinstance(slotvals[buff], collections.abc.MutableSequence)}
+        retrieved = {} #buffers whose content was requested by rule_name1 and used by rule_name2; this info can be discarded later
+        requested = {} #values of variables used in the requests
+        results = {} #slot-values after rule_name1
+        for key in pro11:
+            if utilities._LHSCONVENTIONS[key[0]] == "test":
+                results[key[1:]] = pro11[key]._asdict()
+        for key in pro12:
+            buff = key[1:]
+            action = utilities._RHSCONVENTIONS[key[0]]
+            if action in {"modify", "modify_request"}:
+                results[buff] = {**results.get(buff, {}), **dict(pro12[key].removeunused())}
+            elif action == "overwrite" or action == "retrieveorset" and isinstance(buffers[buff], goals.Goal):
+                results[buff] = collections.defaultdict(utilities.empty_chunkpart, pro12[key].removeunused()) #slots that are not set are empty
+            elif action == "clear":
+                results.pop(buff, None)
+
+        for buff in completed:
+            #if the retrieval is not gone at the end of rule_name2 -- do not compile!!! -- this catches one case in which rules should not be combined because they might yield unsafe results
+            if buffers[buff]:
+                return False, False
+            if buff in used2:
+                if "".join([utilities._RHSCONVENTIONS_REVERSED["retrieveorset"], buff]) not in pro12:
+                    return False, False #the element that rule_name2 uses was requested before rule_name1
+                requested.update(slotvals[buff][0])
+                if slotvals[buff][1] is not None:
+                    retrieved[buff] = slotvals[buff][1]
+                    results[buff] = collections.defaultdict(utilities.empty_chunkpart, slotvals[buff][1].removeempty()) #slots that are not set are empty
+
+        #variables that should not be clashed
+        variables = set()
+        for pro in (pro11, pro12):
+            for key in pro:
+                if isinstance(pro[key], chunks.Chunk):
+                    for _, chunkpart in pro[key]:
+                        varval = utilities.splitting(chunkpart)
+                        variables.update(varval.negvariables, [varval.variables] if varval.variables else [])
+
+        new_2rule = self.__rename__(rule_name2, variables) #rename all variables in rule_name2 to avoid var clashes
+
+        pro2 = next(new_2rule['rule']())
+
+        matched, valued = utilities.match(pro2, results, requested, rule_name1, rule_name2)
 
         new_1rule = self.__substitute__(self[rule_name1], matched, valued)
         
         new_2rule = self.__substitute__(new_2rule, matched, valued)
 
-        for buff in slotvals:
-            mod_attr_val = {}
-            if slotvals[buff]:
-                for elem in slotvals[buff]:
-                    varval = utilities.make_chunkparts_with_new_vars(slotvals[buff][elem], matched, valued)
-                    mod_attr_val[elem] = varval
-                slotvals[buff] = mod_attr_val
-
-        new_rule = self.__collapse__(new_1rule, new_2rule, slotvals, retrieval)
+        new_rule = self.__collapse__(new_1rule, new_2rule, completed, retrieved, buffers)
         
         idx = 0
         re_created = "CREATED"
@@ -497,8 +480,6 @@ class ProductionRules:
         self.used_rulename = None
         self.extra_tests = {}
         
-        self.last_rule_slotvals = self.current_slotvals.copy()
-
         #utility learning and production compilation might have changed the order of rules
         for rulename in sorted(filter(self.rules.__contains__, self.ordered_rulenames), key=lambda x: self.rules[x]['utility'], reverse=True):
             self.used_rulename = rulename
@@ -536,6 +517,7 @@ class ProductionRules:
                 self.compile = []
                 if re_created:
                     yield Event(roundtime(time), self._PROCEDURAL, f"RULE {re_created}: {compiled_rulename}")
+                self.last_rule_slotvals = self.current_slotvals.copy()
                 self.current_slotvals = {key: None for key in self.buffers}
                 yield Event(roundtime(time), self._PROCEDURAL, f"RULE FIRED: {used_rulename}")
                 try:
@@ -558,7 +540,7 @@ class ProductionRules:
         """
         if self.model_parameters["production_compilation"] and self.compile:
             compiled_rulename, re_created = self.rules.compile_rules(self.compile[0], self.compile[1], self.compile[2], self.buffers, self.model_parameters)
-            if compiled_rulename:
+            if compiled_rulename and compiled_rulename not in self.ordered_rulenames:
                 self.ordered_rulenames.append(compiled_rulename)
             return compiled_rulename, re_created
         else:
@@ -816,9 +798,11 @@ class ProductionRules:
             retrieval.state = retrieval._ERROR
 
         if self.model_parameters['production_compilation']:
-            RHSdict = otherchunk._asdict()
-            RHSdict = {item[0]: item[1] for item in RHSdict.items() if item[1] != chunks.Chunk.EmptyValue()} #delete None values
-            self.current_slotvals[name] = [RHSdict, retrieved_elem]
+            RHSvariables = set()
+            for _, chunkpart in otherchunk:
+                varval = utilities.splitting(chunkpart)
+                RHSvariables.update(varval.negvariables, [varval.variables] if varval.variables else [])
+            self.current_slotvals[name] = [{x: temp_actrvariables.get("".join([utilities.ACTRVARIABLE, x])) for x in RHSvariables}, retrieved_elem]
 
         yield Event(roundtime(time), name, f"RETRIEVED: {str(retrieved_elem)}")
 
diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 7f21236..a47b601 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -173,24 +173,16 @@ def getchunk():
 
 def make_chunkparts_without_varconflicts(chunkpart, rule_name, variables):
     """
-    Make a chunk avoiding any variable names used in actrvariables. The function uses rule_name for naming, if possible.
+    Make a chunk avoiding any variable names used in variables. The function uses rule_name for naming.
     """
+    def rename(name):
+        new_name = "".join([str(name), "__rule__", rule_name])
+        while new_name in variables:
+            new_name = "".join([new_name, "_"])
+        return new_name
+
     varval = splitting(chunkpart)
-    temp_var = None
-    if varval.variables:
-        new_name = "".join([str(varval.variables), "__rule__", rule_name])
-        if "".join(["=", new_name]) in variables:
-            raise ACTRError(f"A name clash appeared when trying to compile two rules. Try to rename variables in the rule '{rule_name}'")
-        else:
-            temp_var = new_name
-    temp_negvar = set()
-    for x in varval.negvariables:
-        new_name = "".join([str(x), "__rule__", rule_name])
-        if "".join(["=", "new_name"]) in variables:
-            raise ACTRError(f"A name clash appeared when trying to compile two rules. Try to rename variables in the rule '{rule_name}'")
-        else:
-            temp_negvar.add(new_name)
-    new_varval = VarvalClass(variables=temp_var, values=varval.values, negvariables=tuple(temp_negvar), negvalues=varval.negvalues)
+    new_varval = VarvalClass(variables=rename(varval.variables) if varval.variables else None, values=varval.values, negvariables=tuple(rename(x) for x in varval.negvariables), negvalues=varval.negvalues)
 
     return new_varval
 
@@ -233,16 +225,17 @@ def merge_chunkparts(chunkpart1, chunkpart2):
     """
     varval1 = splitting(chunkpart1)
     varval2 = splitting(chunkpart2)
-    for x in varval1:
-        if x:
-            break
-    else:
-        varval1 = varval2
 
-    new_varval = VarvalClass(variables=varval1.variables, values=varval1.values, negvariables=varval1.negvariables, negvalues=varval1.negvalues)
+    new_varval = VarvalClass(variables=varval1.variables or varval2.variables, values=varval1.values or varval2.values, negvariables=tuple(dict.fromkeys(varval1.negvariables + varval2.negvariables)), negvalues=tuple(dict.fromkeys(varval1.negvalues + varval2.negvalues)))
 
     return new_varval
 
+def empty_chunkpart():
+    """
+    Make a chunk part that says that the slot is empty.
+    """
+    return VarvalClass(variables=None, values=str(EMPTYVALUE), negvariables=(), negvalues=())
+
 #############utilities for rules######################################
 
 def getrule():
@@ -311,93 +304,61 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
         returned_tuple = VarvalClass(variables=None, values=None, negvariables=(), negvalues=tuple(neg_result))
     return returned_tuple
 
-def match(dict2, slotvals, name1, name2):
+def match(dict2, slotvals, requested, name1, name2):
     """
-    Match variables that happen to be tied to the same slots. This function is used in production compilation. dict2 is the LHS of the second rule, slotvals is the dictionary based on the output of the first rule.
+    Match variables that happen to be tied to the same slots. This function is used in production compilation. dict2 is the LHS of the second rule, slotvals is the dictionary based on the output of the first rule. requested are the values of variables that the first rule used in the retrieval that it requested.
+
+    The function returns two dicts. matched stores which variables will be substituted by which variable, valued stores which variables will be substituted by a value.
     """
-    def temp_func(temp_set, temp_val):
+    groups = [] #sets of variables that have to be the same, along with their value (if there is any)
+
+    def unify(*chunkparts):
         """
-        temp_func gets a set of variables and a value (possibly, None), and it returns two dicts.
-        matched stores which variables will be substituted by which variable, valued stores which variables will be substituted by a value (if temp_val not empty).
+        unify gets chunk parts that must have the same variable and value.
         """
-        if temp_val:
-            valued.update({x: temp_val for x in temp_set})
-        else:
-            try:
-                temp_var = sorted(temp_set, key=lambda x:len(x))[0]
-            except IndexError:
-                pass
-            else:
-                matched.update({x: temp_var for x in temp_set})
-        return matched, valued
+        variables = set(x.variables for x in chunkparts if x.variables)
+        values = [x.values for x in chunkparts if x.values]
+        for group in [x for x in groups if x[0] & variables]:
+            groups.remove(group)
+            variables.update(group[0])
+            values.extend(group[1])
+        if any(value != values[0] for value in values):
+            raise ACTRError(f"The values in rules '{name1}' and '{name2}' do not match, production compilation failed")
+        groups.append((variables, values[:1]))
+
+    for variable, value in requested.items():
+        unify(empty_chunkpart()._replace(variables=variable, values=value if value != EMPTYVALUE else str(EMPTYVALUE)))
 
-    matched = {}
-    valued = {}
-    temp_slotvals = slotvals.copy()
     for key in dict2:
 
         code = key[0]
         buff = key[1:]
 
-        chunkdict2 = {}
-                    
-        renaming_set = set(_LHSCONVENTIONS.keys())
-        renaming_set.update(_RHSCONVENTIONS.keys())
-        renaming_set.difference_update({_RHSCONVENTIONS_REVERSED["execute"], _RHSCONVENTIONS_REVERSED["clear"], _RHSCONVENTIONS_REVERSED["extra_test"], _LHSCONVENTIONS_REVERSED["query"]}) #only renaming_set is kept; execute etc. cannot carry a variable, so no variable matching is needed
+        if _LHSCONVENTIONS[code] == "query":
+            continue #queries cannot carry a variable, so no variable matching is needed
+
+        chunkdict2 = dict2[key]._asdict()
+        chunkdict3 = slotvals.get(buff, {})
 
-        if code in renaming_set:
-            chunkdict2 = dict2.get(key)._asdict()
+        for elem in chunkdict2:
             try:
-                chunkdict3 = temp_slotvals.pop(buff)
+                chunkpart3 = splitting(chunkdict3[elem])
             except KeyError:
-                chunkdict3 = chunkdict2
+                chunkpart3 = splitting(EMPTYVALUE)
+            if splitting(chunkdict2[elem]) != splitting(EMPTYVALUE):
+                unify(splitting(chunkdict2[elem]), chunkpart3)
 
-            if isinstance(chunkdict3, collections.abc.MutableSequence): #this is retrieval, it consists of mutable sequence -- 0=chunk description in the 1st rule; 1=retrieved chunk
-                for elem in chunkdict2:
-                    chunkpart2 = splitting(chunkdict2[elem])
-                    try:
-                        chunkpart3 = splitting(chunkdict3[0][elem])
-                    except KeyError:
-                        chunkpart3 = splitting(EMPTYVALUE)
-                    try:
-                        temp_val = getattr(chunkdict3[1], elem).values
-                    except AttributeError:
-                        temp_val = None
-                    temp_set = set()
-                    if chunkpart2.variables:
-                        temp_set.update(set([chunkpart2.variables]))
-                    if chunkpart3.variables:
-                        temp_set.update(set([chunkpart3.variables]))
-                    matched, valued = temp_func(temp_set, temp_val)
-                slotvals.pop(buff) #info about retrieved element has been fully used, it can be discarded now
-            else: #anything else but retrieval is here
-                for elem in chunkdict2:
-                    chunkpart2 = splitting(chunkdict2[elem])
-                    try:
-                        chunkpart3 = splitting(chunkdict3[elem])
-                    except (KeyError, TypeError):
-                        chunkpart3 = splitting(EMPTYVALUE)
-
-                    temp_set = set()
-                    if chunkpart2.variables:
-                        temp_set.update(set([chunkpart2.variables]))
-                    if chunkpart3.variables:
-                        temp_set.update(set([chunkpart3.variables]))
-                    temp_val, val2, val3 = None, None, None
-                    if chunkpart2.values:
-                        val2 = chunkpart2.values
-                    if chunkpart3.values:
-                        val3 = chunkpart3.values
-
-                    if val2 and val3 and val2 != val3:
-                        raise ACTRError(f"The values in rules '{name1}' and '{name2}' do not match, production compilation failed")
-            
-                    temp_val = val2 or val3
-
-                    matched, valued = temp_func(temp_set, temp_val)
+    matched = {}
+    valued = {}
+    for variables, values in groups:
+        if values:
+            valued.update({x: values[0] for x in variables})
+        elif variables:
+            variable = min(variables, key=lambda x: (len(x), x))
+            matched.update({x: variable for x in variables})
 
     return matched, valued
-            
+
 
 
 def modify_utilities(time, reward, rulenames, rules, model_parameters):
-- 
2.43.0


From 48a3e67c7699a9a85f1fb7e5bd1b9b31272d9b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 51/66] fix: a real-time window starts at the initial time of
 the simulation

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index e1522c2..8b41b2f 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -345,7 +345,7 @@ class Simulation:
         Function handling the asynchronous trace output.
         """
         self.__last_event = None
-        old_time = 0
+        old_time = self.__simulation.now
         old_stimulus = None
         old_focus = None
         while self.__running:
-- 
2.43.0


From 1f06d89fc2488be4090680e3b15e9a76481af1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 52/66] fix: the window is closed when the simulation fails

---
 pyactr/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 8b41b2f..a061ee8 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -353,6 +353,9 @@ class Simulation:
                 self.__simulation.step()
             except simpy.core.EmptySchedule:
                 self.__endGui__()
+            except Exception:
+                self.__endGui__() #the window is closed when the simulation fails
+                raise
             if self.current_event and self.__last_event != self.current_event:
                 self.__last_event = self.current_event
                 if self.__realtime:
-- 
2.43.0


From 0840acbbd0003053198845afc10d1774872a09e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 53/66] fix: the window shows an empty screen as empty

---
 pyactr/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index a061ee8..4fe94ac 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -364,7 +364,7 @@ class Simulation:
                 if self.__trace:
                     if self.current_event.proc != utilities._ENV:
                         print(self.current_event[0:3])
-            if self.__env.stimulus and old_stimulus != self.__env.stimulus:
+            if self.__env.stimulus is not None and old_stimulus != self.__env.stimulus:
                 old_stimulus = self.__env.stimulus
                 self.__queue.put({"stim": self.__env.stimulus})
             if self.__env.current_focus and old_focus != self.__env.current_focus:
@@ -402,7 +402,7 @@ class GuiPart:
                     stimulus = element["stim"]
                 except KeyError:
                     focus = element["focus"]
-                if stimulus:
+                if stimulus is not None:
                     for elem in self.canvas.find_withtag("t"):
                         self.canvas.delete(elem)
                     for each in stimulus:
-- 
2.43.0


From 247f400b3273c49c864aad649b38007616cd2258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 54/66] fix: stimulus attributes of the vision module are not
 passed to tkinter

---
 pyactr/simulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 4fe94ac..2a5d386 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -381,6 +381,9 @@ class GuiPart:
     GUI part is used to run GUI on top of ACT-R model. It is used for environment simulations.
     """
 
+    #attributes of stimuli that are passed to tkinter; other attributes (vis_delay, visual features etc.) only matter for the vision module
+    _TEXT_OPTIONS = {"activefill", "activestipple", "anchor", "angle", "disabledfill", "disabledstipple", "fill", "font", "justify", "offset", "state", "stipple", "underline", "width"}
+
     def __init__(self, env, master, queue, endCommand):
         self.queue = queue
 
@@ -410,7 +413,7 @@ class GuiPart:
                             position = stimulus[each]['position']
                         except KeyError:
                             raise utilities.ACTRError("One of your stimuli for environment does not have a defined position; the element cannot be printed in environment; stimuli should look like this: [{'stimulus1-0time': {'text': 'hi', 'position': (0, 0)}, 'stimulus2-0time': {'text': 'you', 'position': (10, 10)}}, {'stimulus3-latertime': {'text': 'new', 'position': (0, 0)}}]")
-                        canvas_id = self.canvas.create_text(position, **{key: stimulus[each][key] for key in stimulus[each] if key != 'position' and key != 'vis_delay'})
+                        canvas_id = self.canvas.create_text(position, **{key: stimulus[each][key] for key in stimulus[each] if key in self._TEXT_OPTIONS})
                         try:
                             self.canvas.itemconfig(canvas_id, text=stimulus[each]['text'], tags="t")
                         except KeyError:
-- 
2.43.0


From b50c712c7ed8dfc845e78427caa28288c9c0245e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:06 +0000
Subject: [PATCH 55/66] fix: the model parameter motor_prepared is not
 overwritten by the first key press

---
 pyactr/productions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 2515817..1d7ad87 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -933,8 +933,7 @@ class ProductionRules:
         preparation = time_presses[0]
 
         #preparation can be modified if previous key was the same or similar -- see if-clauses below
-        if newchunk.key == motorbuffer.last_key[0] or self.model_parameters["motor_prepared"]:
-            self.model_parameters["motor_prepared"] = False #motor_prepared is only used for the 1st key press
+        if newchunk.key == motorbuffer.last_key[0] or (self.model_parameters["motor_prepared"] and not motorbuffer.last_key[0]): #motor_prepared is only used for the 1st key press
             preparation = 0
         elif motorbuffer.last_key[0] and (newchunk.key.values in motorbuffer.PRESSING) == (motorbuffer.last_key[0].values in motorbuffer.PRESSING):
             if (newchunk.key.values in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0].values in motorbuffer.LEFT_HAND): 
-- 
2.43.0


From c47314fcc51d04d417bcb938aaf363a408a1c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:07 +0000
Subject: [PATCH 56/66] fix: a new simulation of a model starts with free
 modules

---
 pyactr/buffers.py |  6 ++++++
 pyactr/model.py   |  3 +++
 pyactr/vision.py  | 16 +++++++++++-----
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/pyactr/buffers.py b/pyactr/buffers.py
index 729e2a5..1d5972c 100644
--- a/pyactr/buffers.py
+++ b/pyactr/buffers.py
@@ -26,6 +26,12 @@ class Buffer(collections.abc.MutableSet):
         for elem in self._data:
             self._check_chunk(elem)
 
+    def reset(self):
+        """
+        Make the module free. This is done whenever a simulation starts; nothing is carried over from a previous simulation.
+        """
+        self.state = self._FREE
+
     @property
     def dm(self):
         """
diff --git a/pyactr/model.py b/pyactr/model.py
index cc0230f..3b2cb10 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -320,6 +320,9 @@ class ACTRModel:
                 self.__buffers["visual"] = vision.Visual(self.__env, dm) #adding vision buffers
                 self.__buffers["visual_location"] = vision.VisualLocation(self.__env, dm) #adding vision buffers
         
+        for each in self.__buffers.values():
+            each.reset() #whatever a previous simulation of the model was doing is not continued
+
         self.productions.used_rulenames = {} # remove any previously stored rules for utility learning
 
         used_productions = productions.ProductionRules(self.productions, self.__buffers, decmem, self.model_parameters, self.__similarities)
diff --git a/pyactr/vision.py b/pyactr/vision.py
index bb9a01b..51241b6 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -272,17 +272,23 @@ class Visual(buffers.Buffer):
         self.environment = environment
         buffers.Buffer.__init__(self, default_harvest, None)
         self.current_focus = self.environment.current_focus
-        self.state  = self._FREE
+        self.reset()
+        self.attend_automatic = True #the current focus automatically attends
+
+        #parameters
+        self.model_parameters = {}
+
+    def reset(self):
+        """
+        Make the module free.
+        """
+        super().reset()
         self.preparation = self._FREE
         self.processor = self._FREE
         self.execution = self._FREE
         self.autoattending = self._FREE
-        self.attend_automatic = True #the current focus automatically attends
         self.last_mvt = float("-inf")
 
-        #parameters
-        self.model_parameters = {}
-
     @property
     def default_harvest(self):
         """
-- 
2.43.0


From d208438d5835c780000b9b982f17371ada6dde4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:07 +0000
Subject: [PATCH 57/66] fix: with several memories of which only one has
 content, buffers without a memory use that one

---
 pyactr/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index 3b2cb10..f4c25a7 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -303,8 +303,8 @@ class ACTRModel:
                 self.__buffers[key].dm = self.decmem #if only one dm, let all buffers use it
         elif len([x for x in self.decmems.values() if x]) == 1:
             for key in self.__buffers:
-                if not self.__buffers[key].dm:
-                    self.__buffers[key].dm = self.decmem #if only one non-trivial dm, let buffers use it that do not have a dm specified
+                if self.__buffers[key].dm is None:
+                    self.__buffers[key].dm = [x for x in self.decmems.values() if x][0] #if only one non-trivial dm, let buffers use it that do not have a dm specified
 
         decmem = {name: self.__buffers[name].dm for name in self.__buffers\
                 if self.__buffers[name].dm != None} #dict of declarative memories used; more than 1 decmem might appear here
-- 
2.43.0


From cc78cf52fe37b11127644b96c2b008bbe4a58927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:07 +0000
Subject: [PATCH 58/66] fix: the copy of a goal buffer keeps the delay

---
 pyactr/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/goals.py b/pyactr/goals.py
index 1b33b29..900ef2b 100644
--- a/pyactr/goals.py
+++ b/pyactr/goals.py
@@ -68,7 +68,7 @@ class Goal(buffers.Buffer):
         """
         if harvest == None:
             harvest = self.dm
-        copy_goal = Goal(self._data.copy(), harvest)
+        copy_goal = Goal(self._data.copy(), harvest, self.delay)
         return copy_goal
     
     def test(self, state, inquiry):
-- 
2.43.0


From 9e36d310441ffe08db8e7c48e8bc5bbd2b17de68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:07 +0000
Subject: [PATCH 59/66] fix: the copy of a retrieval buffer has a copy of its
 memory and keeps the settings

---
 pyactr/declarative.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index dd73219..866c4ac 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -175,9 +175,11 @@ class DecMemBuffer(buffers.Buffer):
         """
         Copy buffer, along with its declarative memory, unless dm is specified. You need to specify new dm if 2 buffers share the same dm - only one of them should copy dm then.
         """
-        if dm == None:
-            dm = self.dm 
-        copy_buffer = DecMemBuffer(dm, self._data.copy())
+        if dm == None and self.dm != None:
+            dm = self.dm.copy()
+        copy_buffer = DecMemBuffer(dm, self._data.copy(), self.finst)
+        copy_buffer.recent = self.recent.copy()
+        copy_buffer.model_parameters = self.model_parameters.copy()
         return copy_buffer
 
     def test(self, state, inquiry):
-- 
2.43.0


From ce5682d579e81b0e55a58ec958c63546e62c7fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:07 +0000
Subject: [PATCH 60/66] fix: an unbound negated variable in a request is
 reported

---
 pyactr/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index a47b601..0b20ff2 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -285,7 +285,7 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
                     try:
                         neg_result.add(actrvariables[neg_var])
                     except KeyError:
-                        raise ACTRError(f"Object '{var[1:]}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
+                        raise ACTRError(f"Object '{neg_var[1:]}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
         if x not in {"values", "variables"} or not getattr(varval, x):
             continue #only values and variables contribute to the result
         if result and temp_result in {VISIONGREATER, VISIONSMALLER} or result in {VISIONGREATER, VISIONSMALLER}:
-- 
2.43.0


From 83045f6baeed5c8f577d61dc8dca7785ef8e1ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:53 +0000
Subject: [PATCH 61/66] fix: an execute action can be a single pair of a method
 and its arguments

---
 pyactr/productions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 1d7ad87..a989028 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -638,6 +638,8 @@ class ProductionRules:
         Execute a command.
         """
         executed.state = executed._BUSY
+        if executecommand and isinstance(executecommand[0], str):
+            executecommand = [executecommand] #a single pair of the method and its arguments
         for each in executecommand:
             try:
                 getattr(executed, each[0])(*each[1])
-- 
2.43.0


From f456e87d7bd77dbcddf5e99961e04af0a4c569ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:53 +0000
Subject: [PATCH 62/66] fix: now is the current time of the simulation

---
 pyactr/simulation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 2a5d386..fdb3cd4 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -86,7 +86,6 @@ class Simulation:
 
         #here below -- simulation values, accessible by user
         self.current_event = None
-        self.now = self.__simulation.now
 
     def __activate__(self, event):
         """
@@ -271,6 +270,13 @@ class Simulation:
         if self.__simulation.peek() == float("inf"):
             self.__pr.compile_rules() #at the end of the simulation, run compilation (the last two rules are not yet compiled)
     
+    @property
+    def now(self):
+        """
+        Current time in simulation.
+        """
+        return self.show_time()
+
     def show_time(self):
         """
         Show current time in simulation.
-- 
2.43.0


From 8c9caec1c6b44a34c9cce60685e457485337461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:28 +0000
Subject: [PATCH 63/66] fix: strict harvesting clears only tested buffers, not
 every buffer sharing its name with a variable

---
 pyactr/productions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index a989028..ec549a4 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -444,6 +444,7 @@ class ProductionRules:
 
     def __init__(self, rules, buffers, dm, model_parameters, similarities=None):
         self.__actrvariables = {} #variables in a fired rule
+        self.__tested = set() #buffers tested by a fired rule
         self.rules = rules
         self.ordered_rulenames = sorted(rules.keys(), key=lambda x: rules[x]['utility'], reverse=True) #rulenames ordered by utilities -- this speeds up rule selection when utilities are used
 
@@ -581,7 +582,7 @@ class ProductionRules:
         if self.model_parameters["strict_harvesting"]:
             for key in temp_actrvariables:
                 submodule_name = key[1:]
-                if submodule_name in self.buffers:
+                if submodule_name in self.__tested: #variables can have names of buffers that were not tested
                     harvested = self.buffers[submodule_name]
                     production = self.clear(submodule_name, harvested, None, self.__actrvariables, time)
                     if harvested.state == harvested._BUSY:
@@ -1012,6 +1013,7 @@ class ProductionRules:
                 actrvariables.update(result[1])
         if update:
             self.__actrvariables = actrvariables
+            self.__tested = {key[1:] for key in dictionary if self._LHSCONVENTIONS[key[0]] == "test"}
         return True
 
     def test(self, submodule_name, tested, testchunk, temp_actrvariables):
-- 
2.43.0


From e444f2ba3344cf21c2ef63e9d55d2ab000c3660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:00 +0000
Subject: [PATCH 64/66] fix: a variable excluded by ~= before the buffer with
 its name is tested excludes the chunk in that buffer

---
 pyactr/productions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index ec549a4..62f3aa0 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -1030,6 +1030,10 @@ class ProductionRules:
         if submodule_var in temp_actrvariables and list(self.buffers[submodule_name])[0] != temp_actrvariables[submodule_var]:
             return False, None
 
+        for excluded in temp_actrvariables.get(utilities.ACTRNEG + submodule_var, set()): #chunks that the variable cannot stand for
+            if list(self.buffers[submodule_name])[0] == excluded:
+                return False, None
+
         for chunk in tested:
             testchunk.boundvars = dict(temp_actrvariables)
 
-- 
2.43.0


From 4e7e1a5107ca2e8c3ae9aeb8c86435dc08cebe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 65/66] fix: run compiles the last two rules when the
 simulation has ended, also when simpy leaves its stop event in the queue

---
 pyactr/productions.py | 1 +
 pyactr/simulation.py  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 62f3aa0..48808fb 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -543,6 +543,7 @@ class ProductionRules:
             compiled_rulename, re_created = self.rules.compile_rules(self.compile[0], self.compile[1], self.compile[2], self.buffers, self.model_parameters)
             if compiled_rulename and compiled_rulename not in self.ordered_rulenames:
                 self.ordered_rulenames.append(compiled_rulename)
+            self.compile = []
             return compiled_rulename, re_created
         else:
             return None, None
diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index fdb3cd4..0dfbe68 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -267,7 +267,7 @@ class Simulation:
             self.__simulation.run(max_time)
         else:
             self.__runGUI__()
-        if self.__simulation.peek() == float("inf"):
+        if not any(scheduled[-1].callbacks for scheduled in self.__simulation._queue): #nothing left to happen (simpy can leave its stop event, which nobody waits for, in the queue)
             self.__pr.compile_rules() #at the end of the simulation, run compilation (the last two rules are not yet compiled)
     
     @property
-- 
2.43.0


From 28b6992ebf15909c9404d393642cf39b4759eb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:25 +0000
Subject: [PATCH 66/66] fix: a rule can carry over a chunk without slots (a
 variable bound to it was taken for unbound)

---
 pyactr/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 0b20ff2..c95528f 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -298,7 +298,7 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
             except UnboundLocalError: #temp_result wasn't used
                 pass
     try:
-        if temp_result:
+        if temp_result is not None:
             returned_tuple = VarvalClass(variables=None, values=result, negvariables=(), negvalues=tuple(neg_result))
     except UnboundLocalError: #temp_result was never used, which means that no values were defined
         returned_tuple = VarvalClass(variables=None, values=None, negvariables=(), negvalues=tuple(neg_result))
-- 
2.43.0

