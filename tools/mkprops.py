#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "A pattern accepts a chunk exactly when every slot constraint holds",
 "A chunk pattern (a rule's buffer test, or pattern <= chunk) accepts a chunk exactly when, for every slot the pattern mentions, a positive value equals the slot's value, every negated value differs from it, a variable equals its existing binding and every negated variable differs from its binding; an absent or empty slot counts as None, unmentioned slots and the chunk type are irrelevant. On acceptance each unbound variable becomes bound to the value of its slot (consistently across slots, whatever the length of its name) and earlier bindings are unchanged.",
 ["inputs"], "all patterns (any mix of values, negated values, variables and negated variables over any slots, including chunk values), all chunks, all prior bindings",
 "Tests compare about twenty hand-written pattern/chunk pairs with single-letter variables; the claim is over all combinations of constraints, bindings and variable names.",
 ["pyactr/chunks.py", "pyactr/productions.py", "pyactr/utilities.py"],
 [("Chunk.match / __le__ / __lt__", "pyactr/chunks.py"), ("ProductionRules.test, LHStest", "pyactr/productions.py")],
 [("boundvars", "variable bindings of a pattern", "Chunk.boundvars")],
 ["result of pattern <= chunk and pattern.boundvars afterwards", "which rule is selected for a given buffer content"])

prop("C02", "Chunk equality and hash depend exactly on the non-empty slot-value pairs",
 "Two variable-free chunks are equal (and hash equal, and act as the same declarative-memory key) exactly when they have the same non-empty slot-value pairs, regardless of slot order, of whether empty slots are listed, and of whether they were written with makechunk, chunkstring or Chunk; nested chunks are compared by the same rule. A chunk never changes its value after creation: modifying a buffer replaces the buffer's chunk and leaves every other holder (memory, other buffers, other chunks) unchanged.",
 ["inputs", "histories"], "all slot/value assignments up to several slots and nesting levels, all construction routes, all sequences of buffer modifications",
 "Tests compare a handful of chunks; equality drives memory merging and matching for every model.",
 ["pyactr/chunks.py", "pyactr/buffers.py", "pyactr/declarative.py"],
 [("Chunk.__hash__/__eq__/removeempty", "pyactr/chunks.py"), ("Buffer.modify", "pyactr/buffers.py")],
 [("hash cache", "cached hash together with the bindings it was computed for", "Chunk")],
 ["==, hash(), membership in DecMem", "contents of other holders after a buffer is modified"])

prop("C03", "Chunk strings and rule strings mean exactly what they say",
 "A well-formed chunk string or production string yields a chunk/rule whose type, slots, values, variables, negated values, negated variables, queries and actions are exactly those written, independently of whitespace, line breaks, quoting and slot order; a bare word naming a previously created chunk denotes that chunk. A string that does not follow the grammar, or that gives one slot two values or two variables, is rejected with an error instead of being silently reinterpreted.",
 ["inputs"], "all chunk and rule strings over the documented notation (=v, ~v, ~=v, quoted values, numbers, punctuation values, queries, all seven action prefixes)",
 "Tests contain a few dozen fixed strings, always in the same layout.",
 ["pyactr/utilities.py", "pyactr/chunks.py", "pyactr/model.py"],
 [("getchunk/getrule grammars", "pyactr/utilities.py"), ("createchunkdict, chunkstring, makechunk", "pyactr/chunks.py"), ("ACTRModel.productionstring", "pyactr/model.py")],
 [], ["the chunk returned by chunkstring", "the two dictionaries yielded by the rule of productionstring"])

prop("C04", "Conflict resolution picks an applicable rule of maximal current utility",
 "At every conflict resolution the rule reported as selected is one whose whole condition (every buffer test and query, with one consistent set of variable bindings) holds in the buffers at that moment, and without utility noise no other rule whose condition holds has a higher current utility. 'NO RULE FOUND' is reported only if no rule's condition holds.",
 ["programs", "histories"], "all rule sets (tests, queries, variables across buffers, utilities, learned utilities), all reachable buffer contents and states",
 "Tests follow fixed models where one rule is applicable at a time; the claim covers every reachable state of every model.",
 ["pyactr/productions.py", "pyactr/simulation.py"],
 [("ProductionRules.procedural_process, LHStest, test, query", "pyactr/productions.py")],
 [("ordered_rulenames", "order in which rules are tried", "ProductionRules"), ("rules[...]['utility']", "current utility", "Productions")],
 ["trace events CONFLICT RESOLUTION / RULE SELECTED / NO RULE FOUND with the buffer contents at that instant"])

prop("C05", "Rules fire one at a time, after the firing time, and only if still applicable",
 "Every selected rule is followed, exactly rule_firing seconds later and before the next conflict resolution, by either its firing or its being stopped from firing; it fires only if its condition still holds at that moment and is stopped only if it does not. A firing is followed by a new conflict resolution at the same time, a 'no rule found' by none until some other module produces an event, and no rule action takes place without a firing.",
 ["programs", "schedules", "histories"], "all models and all interleavings of module events with a pending rule",
 "Tests only look at expected events in sequence for models where nothing interferes with a pending rule.",
 ["pyactr/productions.py", "pyactr/simulation.py"],
 [("procedural_process", "pyactr/productions.py"), ("__procprocessGenerator__, __localprocess__", "pyactr/simulation.py")],
 [("procs", "processes started by a rule, incl. PROCEDURAL", "ProductionRules")],
 ["order and times of PROCEDURAL trace events and the buffer contents when a rule fires"])

prop("C06", "A fired rule changes buffers exactly as its actions say",
 "When a rule fires, each '=' or '*' action changes exactly the slots it names in that buffer (values substituted from the rule's bindings) and keeps all others, '@' and '+' on a goal buffer leave exactly the chunk described (after the buffer's delay for '+' and '*'), '~' empties the buffer, and buffers the rule does not act on keep their content unless strict harvesting, or a request, attention shift or screen change already under way, changes them. Every change of a buffer's content is caused by such an action or process, and a buffer never holds more than one chunk.",
 ["programs", "histories"], "all rules over several goal buffers with and without delay, retrieval and manual buffers; all action combinations and bindings",
 "Tests inspect final buffer content of a few models; frame conditions (what must NOT change) and action combinations are untested.",
 ["pyactr/productions.py", "pyactr/buffers.py", "pyactr/goals.py"],
 [("update and the modify/overwrite/clear/retrieveorset/modify_request actions", "pyactr/productions.py"), ("Buffer.modify, Goal.create", "pyactr/buffers.py, pyactr/goals.py"), ("check_bound_vars", "pyactr/utilities.py")],
 [("Buffer._data", "the single chunk of the buffer", "pyactr/buffers.py")],
 ["buffer contents before and after every atomic simulation step"])

prop("C07", "Every chunk that leaves a buffer by clearing is stored in memory once, on time",
 "Whenever a buffer is cleared (explicitly, by a goal request, by strict harvesting, or because a retrieved or newly encoded chunk replaces it) its chunk is in the declarative memory associated with the buffer with exactly one additional presentation, stamped with the time of the clearing. Declarative memory gains presentations in no other way while a simulation runs, and never loses a chunk or a presentation.",
 ["programs", "histories"], "all models with several goal buffers, retrieval buffers and memories, any sequence of clearings, including clearings of chunks already in memory and several at the same instant",
 "Tests check memory content after two clearings in two models.",
 ["pyactr/declarative.py", "pyactr/buffers.py", "pyactr/goals.py", "pyactr/vision.py", "pyactr/productions.py", "pyactr/model.py"],
 [("DecMem.add/__setitem__", "pyactr/declarative.py"), ("clear in every buffer class", "pyactr/goals.py, pyactr/declarative.py, pyactr/vision.py"), ("ProductionRules.clear", "pyactr/productions.py"), ("assignment of memories to buffers", "pyactr/model.py")],
 [("DecMem._data", "chunk -> presentation times", "pyactr/declarative.py")],
 ["memory content and buffer content before and after every atomic simulation step"])

prop("C08", "Strict harvesting clears exactly the tested-but-unused buffers",
 "With strict_harvesting on, when a rule fires, every buffer whose chunk the rule tested on its left side and does not act on in its right side is cleared into memory before the next conflict resolution, and no other buffer is harvested. With strict_harvesting off no buffer is harvested.",
 ["programs", "configurations"], "all rules over several buffers, both values of the switch",
 "Tests cover two fixed models with the switch on.",
 ["pyactr/productions.py"], [("update (strict harvesting part)", "pyactr/productions.py")],
 [], ["buffer contents between a firing and the following conflict resolution"])

prop("C09", "Symbolic retrieval returns a matching memory chunk whenever there is one",
 "Without the subsymbolic system, a retrieval request returns a chunk of the retrieval buffer's declarative memory that satisfies every constraint of the request (values, negated values, and variables and negated variables bound to non-empty values), and it fails only if no chunk of the memory that was stored before the current moment satisfies it. A success takes no time, puts the chunk in the buffer and leaves the buffer's state free; a failure takes the rule firing time, leaves the buffer's content alone and the state error.",
 ["inputs", "programs", "histories"], "all memories, all requests, all moments",
 "Tests retrieve from memories where exactly one chunk matches by construction.",
 ["pyactr/declarative.py", "pyactr/productions.py"],
 [("DecMemBuffer.retrieve", "pyactr/declarative.py"), ("ProductionRules.retrieve", "pyactr/productions.py")],
 [], ["RETRIEVED events, buffer content and buffer state after them"])

prop("C10", "Subsymbolic retrieval returns the most active chunk above threshold, on time",
 "With the subsymbolic system (no noise) a retrieval returns a chunk that satisfies the request and whose total activation (base-level + spreading + partial matching) is maximal among the satisfying chunks and at least the threshold, after latency_factor*exp(-latency_exponent*activation) seconds; if no satisfying chunk reaches the threshold it fails after latency_factor*exp(-latency_exponent*threshold) seconds. Settings given on the retrieval buffer override those of the model for that buffer only.",
 ["inputs", "configurations", "histories"], "all memories with presentation histories, requests and parameter settings",
 "Tests check a few latencies with one candidate chunk in memory.",
 ["pyactr/declarative.py", "pyactr/utilities.py", "pyactr/productions.py"],
 [("DecMemBuffer.retrieve", "pyactr/declarative.py"), ("retrieval_latency, retrieval_success", "pyactr/utilities.py")],
 [("DecMemBuffer.activation", "activation of the last retrieved chunk", "pyactr/declarative.py")],
 ["RETRIEVED chunk and the time between START RETRIEVAL and RETRIEVED"])

prop("C11", "Base-level activation follows the documented learning equation",
 "The base-level activation of a chunk at time t is ln(sum over its presentations before t of (t - t_j)^-decay), or the optimized form ln(n/(1-decay)) - decay*ln(t - t_last) when optimized learning is on; presentations stamped with the current moment do not contribute, a manually set activation is added inside the logarithm as exp(activation), and with base-level learning off the base level is 0 before that addition.",
 ["inputs", "configurations"], "all presentation histories, times, decays, manual activations, both forms",
 "Tests compare two fixed histories.",
 ["pyactr/utilities.py", "pyactr/declarative.py"],
 [("baselevel_learning", "pyactr/utilities.py")], [],
 ["value returned by the base-level function", "retrieval latencies"])

prop("C12", "Spreading activation equals the documented sum for the current memory",
 "Spreading activation to a chunk equals the sum over the listed buffers of W/n times the sum over the n source values of S - ln((1 + occurrences of the source in memory)/max(1, occurrences in the chunk)) for associated sources and 0 otherwise, honouring the slot-restricted and chunks-only settings. The occurrence counts always reflect the current content of the declarative memory, however it was grown, re-presented, copied or shrunk before.",
 ["inputs", "histories", "configurations"], "all memories, buffer contents and histories of memory changes interleaved with activation computations",
 "Tests compute a few values on freshly built memories with one later addition; counts are cached across the whole life of a memory.",
 ["pyactr/utilities.py", "pyactr/declarative.py"],
 [("spreading_activation, calculate_strength_association, weigh_buffer, find_chunks", "pyactr/utilities.py"), ("cached counters maintained in DecMem", "pyactr/declarative.py")],
 [("restricted_number_chunks / unrestricted_number_chunks", "cached occurrence counts", "DecMem")],
 ["value returned by the spreading function", "latencies of retrievals"])

prop("C13", "Partial matching adds exactly the similarity of every mismatching slot",
 "With partial matching on, every memory chunk is a candidate and its activation changes by the sum, over the constraints of the request, of 0 for a satisfied constraint and of the similarity of the compared values for a violated one: the value set by set_similarities (symmetric in its arguments) or -mismatch_penalty if none was set. Without partial matching a chunk violating any constraint is never retrieved.",
 ["inputs", "configurations"], "all requests, chunks, similarity tables and penalties",
 "No test covers partial matching with similarities.",
 ["pyactr/chunks.py", "pyactr/utilities.py", "pyactr/model.py", "pyactr/declarative.py"],
 [("Chunk.match", "pyactr/chunks.py"), ("get_similarity", "pyactr/utilities.py"), ("set_similarities", "pyactr/model.py")], [],
 ["retrieved chunk and retrieval latency"])

prop("C14", "Finsts: a recently retrieved chunk is excluded or required as requested",
 "With finst n > 0, a request for chunks not recently retrieved never returns one of the last n retrieved chunks and may return any other; a request for recently retrieved ones returns only those. The set of remembered chunks never exceeds n, failures do not evict remembered chunks, and without such a test or with finst 0 memory of recent retrievals has no effect.",
 ["histories", "configurations"], "all sequences of requests with and without the recency test, all finst values",
 "No test exercises the recency test of retrieval.",
 ["pyactr/declarative.py", "pyactr/vision.py", "pyactr/productions.py"],
 [("recent deque in DecMemBuffer", "pyactr/declarative.py"), ("extra_test", "pyactr/productions.py")],
 [("recent", "finsts", "DecMemBuffer")],
 ["sequence of RETRIEVED chunks"])

prop("C15", "Utility learning applies the reward rule once to every contributing firing",
 "With utility learning on, when a rule with a reward R fires at time t, every rule selected since the previous reward (including the rewarded one) has its utility changed by alpha*(R - (t - t_sel) - U), once per selection in order of selection, rounded to 4 decimals; nothing else changes utilities of existing rules except re-creation by compilation. With utility learning off utilities never change.",
 ["programs", "histories", "configurations"], "all sequences of rule selections and rewards, rates and initial utilities",
 "One test checks one reward.",
 ["pyactr/utilities.py", "pyactr/productions.py", "pyactr/model.py"],
 [("modify_utilities", "pyactr/utilities.py"), ("used_rulenames bookkeeping", "pyactr/productions.py")],
 [("used_rulenames", "selection times since the last reward", "Productions")],
 ["productions[name]['utility'] after every firing"])

prop("C16", "A compiled rule does what its two parent rules did in sequence",
 "When production compilation creates a rule from two rules that fired in sequence, then in the situation in which the two parents fired the compiled rule is applicable and firing it leaves the goal buffers with the same content, and issues the same outstanding motor and retrieval requests, as firing the first and then the second parent; and wherever else it fires (with the same memory), the parents would have fired one after the other with the same results. Compilation never changes the parent rules, the buffers or (until a compiled rule is selected) which rules fire when; a rule is reported as re-created if the same rule exists already; and with production_compilation off no rule is created.",
 ["programs", "histories"], "all pairs of rules (parents may be compiled themselves) over goal buffers, retrieval and manual with variables, values and negations that fire in sequence; requests in which a variable stands for an empty slot, strict harvesting, buffer names used as variables and delayed goals excluded",
 "Tests compare twelve fixed pairs and mostly the rule's text.",
 ["pyactr/productions.py", "pyactr/utilities.py"],
 [("Productions.compile_rules, __collapse__, __rename__, __substitute__, __check_valid_compilation__", "pyactr/productions.py"), ("match, merge_chunkparts, make_chunkparts_*", "pyactr/utilities.py")],
 [("current_slotvals / last_rule_slotvals", "slot values set by the previous rule", "ProductionRules")],
 ["RULE CREATED events; buffers after running parents vs the compiled rule from the same state"])

prop("C17", "A simulation is reproducible and independent of how it is driven",
 "The trace of a simulation (sequence of time, module, action) is a function of the model, the run arguments and numpy's random seed only: repeating it, running it in another process with another hash seed, splitting one run into several, stepping instead of running, or switching the trace output on or off gives the same events. Event times never decrease, are rounded to 0.1 ms, and no event at or after the time limit happens.",
 ["programs", "schedules", "configurations"], "all models, all ways of driving a simulation (run, repeated run, step, steps), all hash seeds",
 "Tests only step through models once in one process with a fixed hash seed.",
 ["pyactr/simulation.py", "pyactr/productions.py", "pyactr/utilities.py"],
 [("Simulation.run/step/steps", "pyactr/simulation.py"), ("roundtime", "pyactr/utilities.py")],
 [("current_event", "last visible event", "Simulation")],
 ["current_event, printed trace, show_time()"])

prop("C18", "A simulation does not go idle while a rule is applicable",
 "When a simulation has no further events, no rule's condition holds in the final buffers; and while it is running, whenever no rule is pending and some rule's condition holds once all events of the current instant are done, conflict resolution takes place at that instant.",
 ["programs", "schedules", "histories"], "all models with modules finishing at arbitrary, including coinciding, moments",
 "Tests never have two modules finishing at the same instant as conflict resolution.",
 ["pyactr/simulation.py"],
 [("__proc_activate, __activate__, __procprocessGenerator__", "pyactr/simulation.py")],
 [("__proc_activate", "wake-up event of the procedural module", "Simulation")],
 ["final buffer contents, absence of CONFLICT RESOLUTION after the last change"])

prop("C19", "Queries report the true condition of a module",
 "A query for state free/busy/error, or buffer full/empty, succeeds exactly when it is true: a retrieval buffer is busy from the request until its result, then free after success and error after failure; a delayed goal buffer is busy until its chunk is there; the manual buffer is busy from the command until the movement is finished, and its preparation, processor and execution are busy from command to prepared, from command to initiated, and from prepared to finished, for as long as that holds of any movement under way; the visual buffer is busy from a request to attend an object until the object is encoded. A rule that only clears, modifies or overwrites a buffer does not end a module's activity. A module for which nothing is scheduled any more is not busy. 'full' holds exactly when the buffer holds a chunk.",
 ["programs", "schedules"], "all models with queries at arbitrary moments of module activity, including requests replacing unfinished ones",
 "Tests query modules at a few moments in three models.",
 ["pyactr/productions.py", "pyactr/buffers.py", "pyactr/motor.py", "pyactr/goals.py", "pyactr/declarative.py", "pyactr/vision.py"],
 [("state assignments in every action", "pyactr/productions.py"), ("test/test_buffer", "pyactr/buffers.py and modules")],
 [("state, preparation, processor, execution", "module state", "buffers")],
 ["rules with queries that are selected or not between the begin and end events of a module"])

prop("C20", "Every key press request is executed once with the documented timing",
 "A press_key request made while the manual module is free leads to exactly one press of that key (in upper case), with preparation, initiation, press and finish at the documented times for the key's class, preparation shortened to 0 for a repeated key or prepared first press, by 100 ms when the previous key was of the same class (both home-row keys, i.e. A S D F J K L and space, or both other keys) and of the same hand and by 50 ms when it was of the same class and the other hand, and unshortened otherwise. Two movements never overlap: a press that is prepared during an ongoing movement is initiated when that movement is finished.",
 ["programs", "schedules", "inputs"], "all sequences of keys and all request moments",
 "Tests press two keys of the same class and hand, and one key repeatedly.",
 ["pyactr/motor.py", "pyactr/productions.py"],
 [("motorset, motorcontinue", "pyactr/productions.py"), ("Motor.create, TIME_PRESSES", "pyactr/motor.py")],
 [("last_key", "last key and when its movement finishes", "Motor")],
 ["manual trace events and their times"])

prop("C21", "The environment shows the stimuli in order until trigger or timeout",
 "The default environment process shows the given stimuli one after another in order, the first when the simulation starts (or start_time later); stimulus k is replaced exactly when a key in its trigger set is pressed while it is shown or, failing that, when the cumulative scheduled time of stimuli 1..k is over, and pressing any other key, or any key after the last stimulus was triggered, has no effect on the screen. Argument lists of length 1 are repeated to the common length and inconsistent lengths are rejected.",
 ["inputs", "schedules", "programs"], "all stimulus/trigger/time lists and all key-press histories",
 "Tests use one screen sequence with one trigger.",
 ["pyactr/environment.py", "pyactr/simulation.py"],
 [("environment_process", "pyactr/environment.py"), ("__envGenerator__, __envprocess__, env_interaction check", "pyactr/simulation.py")],
 [("trigger, stimulus", "current trigger set and screen", "Environment")],
 ["environment.stimulus after every simulation step, KEY PRESSED events"])

prop("C22", "Visual search finds a satisfying on-screen object if and only if one exists",
 "A visual-location request (at a moment at which the screen does not change) yields the location of an object currently on screen that satisfies the request in its text, exact or relative (< or >) position and attended status and each of whose externally visible features has the requested value, and fails (state error) only if there is none; with lowest, highest, closest or onewayclosest no other satisfying object is strictly better. The object marked as attended is the one found, and no more than finst objects are marked.",
 ["inputs", "histories"], "all screens, focus positions, search specifications, attended tests and search histories",
 "Tests only search screens with a single object.",
 ["pyactr/vision.py", "pyactr/productions.py"],
 [("VisualLocation.find, add, modify", "pyactr/vision.py")],
 [("recent", "attended objects", "VisualLocation")],
 ["chunk in visual_location buffer after ENCODED LOCATION"])

prop("C23", "An attention shift encodes the requested object with EMMA timing",
 "A move_attention request to an object on screen puts exactly that object (text and all non-control features) in the visual buffer and moves the eyes to its position; without EMMA noise encoding, preparation and execution take the documented times (scaling*delay*exp(angle parameter*visual angle), 135 ms, 70 ms + 2 ms per degree; 85 ms/0/85 ms with EMMA off). Encoding that takes longer than the eye movement is continued from the new position for the remaining share, and a movement prepared during another starts when that one is finished. A shift is dropped only if, before its preparation (and an encoding that ends during the movement) is over, the screen changes with automatic buffering on or another request is made.",
 ["inputs", "configurations", "schedules"], "all screens, focus positions, display geometries, delays and EMMA parameters",
 "Tests check one shift.",
 ["pyactr/vision.py", "pyactr/productions.py", "pyactr/utilities.py"],
 [("Visual.shift, move_eye", "pyactr/vision.py"), ("visualshift, visualcontinue, visualencode", "pyactr/productions.py"), ("calculate_*", "pyactr/utilities.py")],
 [("last_mvt", "end of the last eye movement", "Visual")],
 ["visual trace events, visual buffer content, environment.current_focus"])

prop("C24", "Models and simulations in one process do not influence each other",
 "The trace and final state of a model's simulation are the same whether it is run alone, after or interleaved with simulations of other models created in the same process: parameters, similarities, memories, buffers, rules, utilities and bindings of one model never affect another (chunk types and chunk names are the only shared names).",
 ["programs", "histories"], "all pairs of models with disjoint chunk names, all interleavings of creating and stepping them",
 "Every test uses one model at a time.",
 ["pyactr/model.py", "pyactr/chunks.py", "pyactr/productions.py", "pyactr/simulation.py"],
 [("per-model parameter copies, similarity table, buffers", "pyactr/model.py"), ("class-level Chunk._similarities", "pyactr/chunks.py")],
 [("Chunk._similarities", "similarities in force", "pyactr/chunks.py")],
 ["traces of both models and final buffers/memories/utilities"])

prop("C25", "Noise is zero when off and logistic/gamma with the documented spread when on",
 "With a noise parameter of 0 (or EMMA noise off) the corresponding quantity is deterministic; with instantaneous_noise or utility_noise s > 0 the noise added to each activation or utility is an independent logistic sample with mean 0 and scale s, and EMMA-noisy durations are gamma distributed with shape 9 and the documented mean. Utility noise is applied only with the subsymbolic system on.",
 ["inputs", "configurations"], "all noise settings; distributions over many independent draws",
 "Tests run noisy models once and do not look at the noise.",
 ["pyactr/utilities.py", "pyactr/productions.py", "pyactr/declarative.py"],
 [("calculate_instantaneous_noise, calculate_preparation_time, calculate_execution_time, calculate_delay_visual_attention", "pyactr/utilities.py")], [],
 ["activations of repeated retrievals, choice frequencies between rules, durations of shifts"])

prop("C26", "Illegal definitions and requests are rejected and leave state unchanged",
 "A definition or request that ACT-R does not allow is rejected with an error, never silently accepted: unknown model parameters, redefining special chunk types, an unknown parent type, iterable or non-hashable slot values, two values or variables in a slot, non-chunks put in buffers or memory, negative delay or finst, positive similarities, wrong focus positions, unbound variables or negations in setting or modifying actions, invalid manual/visual commands or keys, unknown condition or action prefixes, retrieving from a goal. A rejected direct call leaves buffers, memory, parameters, rules, chunk types and a simulation under way as they were, and legal calls next to such limits (zero delay, zero similarity, a valid key, ...) are accepted.",
 ["inputs"], "all illegal inputs of the listed kinds, in all contexts",
 "Tests contain no negative cases.",
 ["pyactr/model.py", "pyactr/chunks.py", "pyactr/buffers.py", "pyactr/goals.py", "pyactr/declarative.py", "pyactr/vision.py", "pyactr/motor.py", "pyactr/environment.py", "pyactr/utilities.py", "pyactr/productions.py"],
 [("validation at the API entry points", "all modules")], [],
 ["exception raised by the call or by the simulation; state before and after"])

prop("C27", "Declarative memory keeps exactly the presentations it was given",
 "Declarative memory is a mapping from chunks to presentation times: after any sequence of construction, assignment, add (single chunk or collection, single time or several), update, pop and copy it contains exactly the chunks given, each with exactly the times given (rounded to 0.1 ms when single numbers), equal chunks being merged. A copy and its original do not influence each other.",
 ["histories", "inputs"], "all operation sequences over equal and distinct chunks",
 "Tests build memories once and add one chunk.",
 ["pyactr/declarative.py"], [("DecMem", "pyactr/declarative.py")],
 [("_data", "chunk -> times", "DecMem")], ["keys and time arrays after each operation"])

prop("C28", "Automatic vision encodes the nearest unattended and the foveal object",
 "When the screen changes (and vision is not requested to do anything at that moment), with automatic_visual_search the visual-location buffer receives the location of an unattended object nearest to the current focus (none if all are attended), and without it the buffer is left alone; the visual buffer, unless stopped by a clear command (until the next shift is finished), gets an object strictly within the foveal region (1 degree) of its focus whose text differs from the buffered one, after the encoding time for twice its angle, and is otherwise left alone. The focus is the position of the last encoded object or eye movement. The new location or object replaces the old one entirely.",
 ["inputs", "histories", "configurations"], "all sequences of screens, focus positions and settings",
 "Tests run one model with one object per screen.",
 ["pyactr/vision.py", "pyactr/productions.py", "pyactr/simulation.py"],
 [("automatic_search, automatic_buffering", "pyactr/vision.py, pyactr/productions.py"), ("__envGenerator__", "pyactr/simulation.py")],
 [("recent, attend_automatic", "attended objects; automatic buffering switch", "vision buffers")],
 ["visual and visual_location buffers after each screen change"])

prop("C29", "Shifting the start time of a simulation shifts its trace and nothing else",
 "Starting a simulation at initial_time T instead of 0, with presentation times of the memory shifted by T too, produces the same events with all times shifted by T: no choice, latency, module duration, screen change or stored chunk depends on the absolute time.",
 ["programs", "configurations"], "all models with retrieval, motor, environment and subsymbolic processing; all start times",
 "Every test starts at time 0.",
 ["pyactr/simulation.py", "pyactr/model.py", "pyactr/environment.py", "pyactr/productions.py"],
 [("initial_time handling", "pyactr/simulation.py, pyactr/model.py, pyactr/environment.py")], [],
 ["traces of the shifted and unshifted run"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
