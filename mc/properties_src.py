"""Single source of properties.jsonl and MANIFEST.json:  python3 mc/properties_src.py  rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOT_APPLICABLE = []


def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note=""):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state,
                  observe=observe, technique=technique, note=note))


S = "pyactr/"

prop("C01", "Pattern matching is exact and binds variables consistently",
     "A left-hand-side test holds of a buffer exactly when the chunk in it satisfies every slot constraint (required value, forbidden values, variable, forbidden variables, empty slot), where a slot missing from the chunk counts as empty. "
     "All occurrences of a variable in one rule, across all tested buffers, stand for the same value, and the value written back by the rule is the one that was matched.",
     ["inputs", "programs"], "every pattern over the constraint alphabet, every chunk over the value alphabet, every prior binding, every order of tests",
     "The tests match a handful of patterns; agreement of all constraint kinds with all values (empty slots, nested chunks, bound and unbound variables) is a product space.",
     [S + "chunks.py", S + "productions.py"], [("chunk comparison with binding", S + "chunks.py Chunk.match / __le__"), ("left-hand-side tests", S + "productions.py LHStest, test")],
     observe=["rule selection", "values written by the rule"],
     technique="exhaustive enumeration of patterns x chunks x bindings against a reference matcher, on the real code",
     note="Complete within the alphabets (two to three slots, two words, two nested chunks, two variables).")

prop("C02", "Chunk equality is by slots and values, everywhere",
     "Two chunks are equal, with equal hashes, exactly when the same slots hold the same non-empty values, however and in whatever slot order they were written or built. "
     "Equal chunks are interchangeable as members and keys of sets, dictionaries, buffers and declarative memory.",
     ["inputs"], "all pairs of chunks over the slot and value alphabet, in all ways of construction",
     "Tests compare a few chunks; equality must be an equivalence consistent with hashing for every pair and every construction order.",
     [S + "chunks.py"], [("equality and hash", S + "chunks.py Chunk.__eq__, __hash__")], observe=["==", "hash", "membership"],
     technique="exhaustive enumeration of all pairs of contents x constructions, on the real code",
     note="Complete within the alphabet; chunk types with equal slots are not distinguished by the property.")

prop("C03", "Textual, keyword and rule-made chunks denote the same thing",
     "A chunk description written as text, built from keywords or created by a rule's action denotes exactly the slots and values written in it, for every notation of values (words, quoted strings, names of existing chunks, empty), every slot order and layout. "
     "The notation of patterns (= variable, ~ negation, ~= negated variable, combinations) denotes exactly those constraints, and chunk types hold exactly their declared slots and those of all included types, also after redeclarations.",
     ["inputs", "programs"], "every description and pattern over the notation alphabet, every declaration history",
     "The notation is a grammar; tests sample a few sentences of it.",
     [S + "chunks.py", S + "utilities.py"], [("chunk parsing", S + "chunks.py createchunkdict, chunkstring, makechunk"), ("varval splitting", S + "utilities.py splitting, getchunk, getrule")],
     observe=["slots of the chunk", "printed form"],
     technique="exhaustive enumeration of descriptions and declaration histories against the denoted content, on the real code",
     note="Complete within the notation alphabet; default slot values and '!' are outside.")

prop("C04", "Every buffer is a single cell",
     "Every buffer holds at most one chunk: a write replaces the previous chunk, clearing empties the buffer, a modification changes exactly the named slots, and queries and membership tests agree with the content. "
     "A chunk displaced or cleared goes to the memory that the buffer harvests into (or the memory given explicitly) at the given time, and to no other.",
     ["histories"], "every sequence of operations up to the depth, on every kind of buffer",
     "Interference between operations only shows in sequences; tests run two or three fixed ones.",
     [S + "buffers.py", S + "goals.py", S + "vision.py", S + "declarative.py"], [("one-cell buffers", S + "buffers.py Buffer.add, modify, clear"), ("harvesting", S + "goals.py, vision.py, declarative.py add, clear, copy")],
     observe=["buffer content", "declarative memory"], technique="exhaustive operation sequences on the real buffers against a one-cell reference",
     note="All sequences up to depth 4 (thorough 6).")

prop("C05", "Harvesting: each chunk that leaves a buffer enters memory once",
     "During a run, a chunk that leaves a goal or retrieval buffer, by clearing, replacement or retrieval of another one, is presented to declarative memory exactly once, at the moment it leaves, with the content it had then. "
     "A modification or a chunk staying in the buffer causes no presentation, and chunks already in memory get an additional presentation time.",
     ["histories", "programs"], "every history of action sets up to the length, for every initial content",
     "A missing, duplicated or mistimed presentation changes later retrievals only; tests look at few final memories.",
     [S + "goals.py", S + "declarative.py", S + "productions.py"], [("clear and add", S + "goals.py Goal.clear; declarative.py DecMemBuffer.clear"), ("right-hand-side actions", S + "productions.py clear, retrieveorset, overwrite, retrieve")],
     state=[("memory", "chunk -> presentation times", S + "declarative.py DecMem")], observe=["declarative memory after each instant"],
     technique="exhaustive histories of simulated firings checked step by step against an executable reference semantics",
     note="Complete for two to three firings over the action alphabet.")

prop("C06", "Declarative memory maps chunks to their presentation times",
     "Declarative memory holds each chunk once, with all the times at which it was presented, in whatever form the chunks and times were added (single, several times, collections, assignment, update, copying). "
     "Deleting removes exactly that chunk, and a copied memory or an array of times given by the user is not affected by later changes.",
     ["histories", "inputs"], "every sequence of operations up to the depth",
     "Aliasing and equal-but-differently-built keys show only in sequences.",
     [S + "declarative.py"], [("memory", S + "declarative.py DecMem.add, add_activation, __setitem__, copy, update")], observe=["memory as a mapping"],
     technique="exhaustive operation sequences on the real memory against a reference map", note="All sequences up to depth 4 (thorough 5).")

prop("C07", "Symbolic retrieval returns a match, on time, iff there is one",
     "With symbolic retrieval, a request immediately puts in the buffer a chunk of memory that satisfies every constraint of the request under the rule's bindings if there is one; otherwise it ends one rule-firing time later, reports an error and changes no buffer. "
     "A chunk presented for the first time at the very moment of the request is not yet retrievable.",
     ["inputs", "histories"], "every request over the constraint alphabet, every memory over the chunk universe, every binding; every history of requests and harvests",
     "Tests retrieve from one or two memories; soundness and completeness is over all of them.",
     [S + "declarative.py", S + "productions.py"], [("retrieval", S + "declarative.py DecMemBuffer.retrieve"), ("request", S + "productions.py retrieve")], observe=["trace", "retrieval buffer", "module state"],
     technique="exhaustive enumeration of requests x memories x bindings and of request/harvest histories, simulated and checked against the reference semantics",
     note="Complete within the alphabets.")

prop("C08", "Subsymbolic retrieval follows base-level activation",
     "With subsymbolic retrieval, the most active matching chunk is retrieved, after latency_factor*exp(-latency_exponent*activation), if its activation reaches the retrieval threshold; otherwise the request fails after the time of the threshold. "
     "Base-level activation is ln of the sum of t^-decay over all past presentations (with optimized learning ln(n/(1-d)) - d ln(time since creation)), ignoring presentations at the very moment, plus one noise draw per chunk.",
     ["inputs", "histories", "schedules"], "every assignment of presentation histories and parameter settings; every history of requests, renewed requests and harvests; every assignment of noise draws from the alphabet",
     "Numerical behaviour is tested at a few points and never under competing histories and noise.",
     [S + "declarative.py", S + "utilities.py", S + "productions.py"], [("base-level learning", S + "utilities.py baselevel_learning, modify_utilities, calculate_instantaneous_noise"), ("choice and latency", S + "declarative.py DecMemBuffer.retrieve")],
     observe=["retrieved chunk", "retrieval time"], technique="exhaustive enumeration of histories, parameters and scripted noise, simulated and checked against a reference",
     note="Complete within the alphabets; noise owned by the harness; times compared at 0.1 ms.")

prop("C09", "Spreading activation uses current fans and buffer contents",
     "A chunk that contains a source held in a buffer of association weight W, or is that source, gets (W / number of sources in that buffer) * (strength - ln fan) from it, and other chunks get nothing; the fan is one plus the number of slots in the memory as it is at that moment that hold the source, divided by how often the chunk holds it. "
     "The settings (associations only from chunks, restriction to the slot, strength, weights per buffer) have exactly their documented effect, after every history of additions, harvests and deletions.",
     ["inputs", "histories", "configurations"], "every memory, source buffers and association setting over the alphabets; every history of memory changes with a retrieval after each",
     "Tests check one or two networks; fans change with every harvest.",
     [S + "utilities.py", S + "declarative.py"], [("spreading", S + "utilities.py spreading_activation, find_chunks, strength_of_association"), ("fan caches", S + "declarative.py DecMem")], observe=["retrieval time"],
     technique="exhaustive enumeration of memories x sources x settings and of change histories, simulated and checked against a reference",
     note="Complete within the alphabets; activation observed through retrieval times.")

prop("C10", "Partial matching penalizes exactly the unmet constraints",
     "With partial matching, each constraint of the request that a chunk does not meet lowers its activation by the similarity set for that pair of values in either order (the one set last), or by the mismatch penalty when none is set; met constraints and unnamed slots lower nothing. "
     "The most active chunk is retrieved even if it does not match perfectly.",
     ["inputs", "configurations"], "every request over two slots, memory and similarity setting over the alphabets",
     "The tests cover a few similarity settings with one constraint each.",
     [S + "chunks.py", S + "declarative.py", S + "model.py"], [("mismatch", S + "chunks.py Chunk.match, _similarities"), ("similarities", S + "model.py set_similarities")], observe=["retrieved chunk", "retrieval time"],
     technique="exhaustive enumeration of requests x memories x similarity settings, simulated and checked against a reference",
     note="Explicit similarities are combined with the default penalty only.")

prop("C11", "Recently-retrieved requests respect the remembered retrievals",
     "A request restricted to chunks that were not recently retrieved never returns one of the last finst retrieved chunks and finds any other matching chunk; a request restricted to recently retrieved ones returns only those. "
     "Unrestricted requests ignore the restriction, also after rules that used it.",
     ["histories", "configurations"], "every history of requests up to the length, number of remembered retrievals and memory",
     "The remembered queue matters only over sequences of retrievals.",
     [S + "declarative.py", S + "productions.py"], [("remembered retrievals", S + "declarative.py DecMemBuffer.recent, finst"), ("extra tests", S + "productions.py extra_test")], observe=["retrieved chunk"],
     technique="exhaustive request histories, simulated and checked against a reference", note="All histories up to length 4 (5).")

prop("C12", "Conflict resolution selects a matching rule of maximal utility",
     "At each conflict resolution a rule is selected if and only if the conditions of some rule hold at that moment, and the selected rule is one whose conditions hold and whose utility (plus one noise draw per rule, if noise is on) is maximal among those. "
     "It fires one rule-firing time later if its conditions still hold then, and is stopped without any effect otherwise.",
     ["programs", "schedules"], "every program over the rule alphabet, every utility assignment, buffer changes between selection and firing, every assignment of noise draws",
     "Tests have few competing rules, and hardly any change between selection and firing.",
     [S + "productions.py", S + "simulation.py"], [("conflict resolution", S + "productions.py procedural_process, LHStest"), ("reactivation", S + "simulation.py __procprocessGenerator__")], observe=["trace"],
     technique="exhaustive enumeration of programs and noise scripts, simulated under a refinement monitor", note="Starter rule plus two competitors; ties may go either way.")

prop("C13", "Firing a rule has exactly the effects written in it",
     "A fired rule has exactly the effects written on its right-hand side, with its variables replaced by the matched values, each at its time (immediately, or after the delay of the buffer): modification changes only the named slots, setting replaces, clearing empties, retrieval starts. "
     "Buffers, module states and memories not mentioned stay unchanged, every promised effect happens unless a newer request to the same module supersedes it, and nothing else happens.",
     ["programs"], "every one- and two-rule program over the alphabet of conditions and action sets",
     "Tests check chosen traces of a few models; combinations of actions interfere.",
     [S + "productions.py", S + "goals.py", S + "simulation.py"], [("actions", S + "productions.py update, modify, overwrite, modify_request, retrieveorset, clear"), ("processes", S + "simulation.py __extraprocessGenerator__, __localprocess__")],
     observe=["trace", "buffers", "module states", "memory"], technique="exhaustive program enumeration, simulated under a refinement monitor of an executable reference semantics",
     note="Complete for the alphabet; models that request and delay-modify the same buffer in one rule are excluded.")

prop("C14", "Strict harvesting clears exactly the tested, unmentioned buffers",
     "With strict harvesting, firing a rule clears, into memory and at that moment, exactly the buffers that its left-hand side tests (not merely queries) and its right-hand side does not mention. "
     "Without strict harvesting nothing is cleared that the rule does not clear.",
     ["programs", "configurations"], "every combination of test or query and action per buffer",
     "Tests have one model with strict harvesting.",
     [S + "productions.py"], [("strict harvesting", S + "productions.py update")], observe=["buffers", "memory"],
     technique="exhaustive program enumeration, simulated under a refinement monitor", note="Three goal buffers and a retrieval buffer.")

prop("C15", "Utility learning credits exactly the rules since the last reward",
     "When a rule with a reward fires, the utility U of every rule used since the previous reward, including itself, becomes U + alpha*(R - time since its selection - U), once per use, and no other utility changes. "
     "Conflict resolution uses the current utilities, and nothing changes when learning is off.",
     ["histories", "configurations"], "every assignment of initial utilities, rewards and rates to cyclic programs with competing rules, run over many cycles",
     "Credit assignment depends on the whole history since the last reward; tests check one model.",
     [S + "productions.py", S + "utilities.py"], [("learning", S + "productions.py utility update; utilities.py modify_utilities"), ("ordering", S + "productions.py procedural_process")], observe=["utilities of rules", "trace"],
     technique="exhaustive configurations of cyclic programs, every cycle compared with a reference", note="Utilities compared to 1e-3.")


prop("C16", "A compiled rule does what its two rules do one after the other",
     "With production compilation, when two different rules fire one after the other, a rule \"first and second\" is added when the next rule fires (or the simulation ends). "
     "It fires exactly where the two would fire one after the other (all the tests and queries of both, except what the first brings about) and leaves buffers and requests as they would; after a retrieval it is restricted to the retrieved chunk and makes no retrieval. "
     "It is not added if both request the same buffer other than retrieval, if the second tests a visual buffer or queries a module requested by the first for anything but busy (retrieval: error), or if the retrieved chunk remains; its utility starts at 0 and, with utility learning, moves by alpha towards that of the first rule whenever it is re-created.",
     ["programs", "inputs", "histories"], "every pair of rules over the alphabets of tests, actions and queries, learned from every content, compared on every content; chains of three rules; histories of utilities",
     "A compiled rule is right only if it agrees with the two rules on every content of buffers, not just the one it was learned from; tests check how twelve compiled rules are printed.",
     [S + "productions.py", S + "utilities.py", S + "simulation.py"], [("compilation", S + "productions.py compile_rules, __collapse__, __rename__, __substitute__, __check_valid_compilation__"), ("variables", S + "utilities.py match, merge_chunkparts, make_chunkparts_*"), ("when", S + "productions.py procedural_process; simulation.py run, step")],
     observe=["buffers after firing of the compiled rule", "set of rules", "utilities"], technique="exhaustive enumeration of pairs and chains of rules, the compiled rule executed on every content and compared with the execution of the rules",
     note="Rules on one or two goal buffers and retrieval, with up to three (five) constraints; the contents of memory in between are not compared.")


prop("C17", "Key presses take their times, in order, and report their state",
     "A key press requested at t is prepared at t + 0.15 s (A S D F J K L SPACE) or 0.25 s (other keys), 0.1 s earlier if the previous key needs the same kind of movement (one of these keys or not) with the same hand, 0.05 s earlier with the other hand, at once for the same key or the first press of a model with motor_prepared. "
     "It then waits for earlier presses to finish, and is initiated 0.05 s later, pressed 0.01 s later (5 and 6: 0.11 s, other keys 0.1 s) and finished 0.09 s later (0.16 s, 0.15 s), exactly once; a request arriving before the preparation of the previous one is complete replaces it. "
     "Queries of the manual module see preparation, execution and state as busy exactly in these phases.",
     ["histories", "schedules"], "every sequence of presses up to the length, the queries between them, and settings; every pair of keys",
     "Tests press one or two keys that do not overlap; queueing, replacement and feature reuse appear only in sequences with particular timing.",
     [S + "motor.py", S + "productions.py"], [("motor process", S + "productions.py motorset, motorcontinue"), ("keys and times", S + "motor.py Motor")], observe=["trace", "rule selection under queries"],
     technique="exhaustive sequences of key presses and queries, simulated and compared with a reference motor module",
     note="Lengths 2 to 4; the hand of the space bar and answers at the very moment a phase ends are left open.")

prop("C18", "Screens change when their time is up or a trigger key is pressed",
     "The environment shows the given screens in order, the first at the start time; each is replaced exactly when the sum of the times of the screens so far has passed since the start, or at the moment at which a key among its triggers is pressed, if that comes first, and the last one stays. "
     "Other keys, and keys pressed after the last screen, change nothing; one stimulus stands for all triggers, one trigger for all stimuli and one time for all screens, and other mismatches of number are errors.",
     ["inputs", "schedules"], "every sequence of screens, times, triggers, key presses and starting times over the alphabets",
     "Tests show one or two screens with one key; races between time-outs and key presses are not tested.",
     [S + "environment.py", S + "simulation.py"], [("screens", S + "environment.py Environment.environment_process"), ("triggers", S + "simulation.py __envGenerator__, __localprocess__")], observe=["printed screens", "environment.stimulus"],
     technique="exhaustive combinations of screens, times, triggers and presses, simulated and compared with a reference",
     note="One to three screens, up to three presses, including simultaneous time-out and press.")


prop("C19", "Visual search finds an object meeting the whole request, iff there is one",
     "A visual location request at once puts into its buffer the location (and the visible features) of a displayed object that meets every part of the request: value, features, exact, excluded or relative positions (<x, >x, also by variable), and lowest, highest, closest or onewayclosest among the objects meeting the rest; if there is none it reports an error, and the buffer stays as it was. "
     "A request for attended (not attended) objects finds only objects that are (are not) among the last finst found ones; other requests ignore that.",
     ["inputs", "histories", "configurations"], "every set of up to three or four objects in every order x every request over values, features and positions; every history of requests",
     "Tests search for one of two objects; the order of objects, combinations of constraints and histories matter.",
     [S + "vision.py", S + "productions.py", S + "utilities.py"], [("search", S + "vision.py VisualLocation.find, add, recent, finst"), ("request", S + "productions.py retrieveorset"), ("variables", S + "utilities.py check_bound_vars")],
     observe=["trace", "visual location buffer", "module state", "memory"], technique="exhaustive enumeration of displays x requests and of histories of requests, simulated and compared with a reference search",
     note="If two extreme positions are requested at once, any undominated object is accepted.")

prop("C20", "Attention shifts encode the object and move the eyes at the right times",
     "A shift of attention to a displayed object encodes it, replacing the previous one (which goes to memory), K*vis_delay*exp(k*angle) after the request; the eye movement is prepared in 0.135 s, executed in 0.07 s + 2 ms per degree after any earlier movement has ended, and if the encoding is not over then, its remaining fraction is completed with the time from the new focus. "
     "Without EMMA both the movement and the encoding take 0.085 s; attending to an object that is no longer displayed is an error, and a shift requested during the preparation of the previous one cancels the movement of that one. "
     "The focus changes exactly at the end of a movement; the preparation is free again when it is over or cancelled, the processor when all movements and encodings of shifts that were not cancelled are over (a shift is also cancelled by the command clear).",
     ["histories", "schedules", "configurations"], "every sequence of up to two or three shifts over positions, delays, pauses and settings; every moment of disappearance",
     "Tests attend to single objects; overlapping shifts and encodings that end in different phases depend on distances, delays and timing.",
     [S + "vision.py", S + "productions.py", S + "utilities.py"], [("shift", S + "productions.py visualshift, visualcontinue, visualencode; vision.py Visual.shift, move_eye"), ("times", S + "utilities.py calculate_delay_visual_attention and others")],
     observe=["trace", "visual buffer", "focus", "memory", "rule waiting for the processor"], technique="exhaustive sequences of shifts, simulated and every event compared with a reference",
     note="Without noise; angle in radians as implemented; overlapping shifts only where the first object is encoded within the preparation.")


prop("C21", "New screens are searched and objects at the focus buffered automatically",
     "When a screen appears (and automatic search is on), the displayed object closest to the eyes that is not among the remembered ones is at that moment put into the visual location buffer, instead of its content, and remembered; without such an object nothing changes. "
     "An object less than one degree (on both axes) from the attended position whose text differs from that in the visual buffer is put there after its encoding time, instead of its content and with its own features only, unless another screen or a request to the visual module comes first, or the command clear has stopped that until the next completed shift. "
     "A screen that appears while a shift is prepared cancels the movement (if buffering is not stopped) and leaves the module free; one that appears later does not change the shift.",
     ["histories", "programs", "configurations"], "all sequences of two of 15 screens and three of seven (thorough: three with any last one, four) x durations x seven programs x remembered objects, focus, size and parameters; screens at 12 times during a shift",
     "Tests have automatic search on with one or two objects; which object is found depends on the history of screens, requests and focus.",
     [S + "productions.py", S + "vision.py", S + "simulation.py"], [("search and buffering", S + "productions.py automatic_search, automatic_buffering; vision.py automatic_search, automatic_buffering, stop_automatic_buffering"), ("started by a screen", S + "simulation.py __envGenerator__, __extraprocessGenerator__")],
     observe=["trace", "visual location buffer", "visual buffer", "focus", "memory"], technique="exhaustive histories of screens and programs, every event compared with a reference of the visual modules",
     note="Times without noise; several objects in the foveal region: any of them.")
prop("C22", "A run in parts, by steps, or started later is the same run",
     "However a simulation is cut into runs at any times, or stepped through event by event, with or without the printed trace, it has the same events at the same times and ends with the same buffers, memories, rules and utilities as one uninterrupted run. "
     "Printed times are the simulated time, never decrease, and never exceed the time until which the run was requested. A simulation (also in real time) starts at its initial time, and all its events, screens and presentations happen that much later.",
     ["schedules", "programs"], "every program of two (three) actions over all modules, every cut, pair of cuts, number of steps and starting time from a list",
     "Tests step through models with fixed steps and start at 0; cutting a run between two events of one moment, or inside pending processes, is a matter of schedule.",
     [S + "simulation.py", S + "productions.py", S + "environment.py"], [("running", S + "simulation.py run, step, steps, __localprocess__"), ("time", S + "utilities.py roundtime; environment.py environment_process")],
     observe=["trace", "show_time", "current_event", "buffers", "memory"], technique="exhaustive programs x cuts, steps and starts, every run compared with the uninterrupted one",
     note="Eleven actions, events within 2.6 s; the real-time mode is only checked for its starting time.")

prop("C23", "A simulation depends on its own model only, and is repeatable",
     "Building, starting and running models in any interleaving in one process gives each the same events, times, buffers, memories, utilities and parameters as when it is alone; the default parameters stay as they are, whatever is set in a model. "
     "The same holds for every process and order in which Python iterates over sets and, with noise, for the same seed of numpy. Parameters, stimuli, triggers and times passed to a model or a simulation are not changed.",
     ["schedules", "configurations"], "every interleaving of building, starting and running in two parts of every pair of 11 models over all modules; all iteration orders of three words",
     "Tests build one model per process; leaks between models need two models and a certain interleaving, and dependence on hash order needs another process.",
     [S + "model.py", S + "declarative.py", S + "environment.py", S + "chunks.py", S + "vision.py", S + "motor.py"], [("own parameters and similarities", S + "model.py __init__, simulation"), ("own state of modules", S + "declarative.py, vision.py, motor.py, goals.py __init__"), ("arguments", S + "environment.py environment_process")],
     observe=["trace", "buffers", "memory", "parameters"], technique="exhaustive interleavings of operations of pairs of models, and fresh processes for every hash order, compared with the model alone",
     note="Chunk types and named chunks are global by design: models share their declarations.")

prop("C24", "A rule written as text is the rule written as a function",
     "A rule given as a string selects, tests, fires, prints and changes buffers and memories exactly as the function rule with the same conditions and actions, for every kind of condition and action, notation of slot values (words, quoted strings, numbers, named chunks, None, =, ~, ~=, <, >), layout and order. "
     "The rule gets the given name, utility and reward (also 0), and a rule without a name gets one of its own; adding it keeps the other rules and replaces the one of the same name.",
     ["programs", "inputs"], "all pairs of notations on the two sides x contents of the buffer, conditions x actions over all modules, layouts x orders, all orders of three named or unnamed rules with utilities and rewards, all histories of three definitions and redefinitions",
     "Tests write rules in one layout with few notations, and never compare the two formats.",
     [S + "model.py", S + "utilities.py", S + "chunks.py"], [("textual rules", S + "model.py productionstring"), ("grammar", S + "utilities.py getrule, getchunk; chunks.py createchunkdict")],
     observe=["trace", "printed lines", "buffers", "memory", "utilities"], technique="exhaustive enumeration of rules in both formats, both models run and compared event by event",
     note="Function rules are decided by the other properties.")

prop("C25", "Every buffer uses its own memory and its own retrieval parameters",
     "In a model with several goal buffers, retrieval buffers and declarative memories, a retrieval buffer retrieves from the memory that it was given, and a buffer that is cleared or replaced is harvested into the memory that it was given; the other buffers and memories do not change. "
     "A model with one memory, or with exactly one non-empty memory when the simulation starts, uses it for all goal and retrieval buffers that were given none; visual buffers without a memory are harvested into the only memory. "
     "Parameters set in a retrieval buffer override those of the model for its own retrievals only.",
     ["histories", "configurations"], "every assignment of two memories to three buffers (also one memory, one of two empty) x all sequences of two (three) rules over up to 125 combinations of actions; visual buffers; pairs of six parameter settings",
     "Tests have one memory and one retrieval buffer, or one assignment; which memory a chunk ends up in depends on the assignment and the history.",
     [S + "model.py", S + "productions.py", S + "declarative.py", S + "goals.py"], [("memories of buffers", S + "model.py simulation, decmem, set_decmem"), ("harvesting", S + "productions.py clear; goals.py, declarative.py, vision.py clear"), ("retrieval parameters", S + "declarative.py DecMemBuffer.retrieve")],
     observe=["buffers", "memories", "trace"], technique="exhaustive histories of actions x assignments, every state compared with a reference of buffers and memories",
     note="With several non-empty memories, every buffer is given one by the user; requests of a buffer do not overlap.")


prop("C26", "A model can be simulated again and again",
     "A simulation of a model that was already simulated, to the end or left at any moment, has the same events at the same times and ends with the same buffers, memories, utilities and rules as that of a newly built model with the same contents: the chunks in goal, retrieval and own visual buffers, the memories, the rules with their utilities, the positions of eyes and attention, and the remembered retrievals and objects. "
     "Everything else starts afresh: all modules are free and do nothing that was requested earlier, no screen or trigger is left before the environment starts, no key counts as previously pressed, and rules used earlier get no share of rewards.",
     ["histories", "schedules"], "all pairs (triples) of actions over all modules x settings, first simulation left between every two events, second one continued or reset",
     "Tests simulate a model once; what stays behind depends on the moment at which the earlier simulation was left.",
     [S + "model.py", S + "buffers.py", S + "vision.py", S + "simulation.py", S + "productions.py"], [("start of a simulation", S + "model.py simulation"), ("module states", S + "buffers.py, vision.py free"), ("use of rules", S + "productions.py used_rulenames")],
     observe=["trace", "buffers", "memory", "utilities"], technique="exhaustive enumeration of programs and of the moments at which a first simulation is left, the second one compared event by event with that of a new model",
     note="What is remembered as recently retrieved or attended is left open: the new model gets the same.")


prop("C27", "The noise of eye movements",
     "With emma_noise, the encoding time of a shift of attention, the preparation and execution times of the eye movement and the encoding time of automatic buffering are each drawn anew from a gamma distribution of shape 9 whose mean is the time without noise (0 stays 0); without it, they are those times. "
     "With emma_landing_site_noise, the eyes land on a position drawn from a normal distribution around the object with independent variances of 0.1 times the distance in degrees (with no distance on the object itself), and without it on the object. "
     "The drawn values and nothing else decide the times of the phases, when the object is encoded (again from the landing site, for the remaining part, if encoding outlasts the movement) and where the eyes are; with emma=False there is no noise in shifts.",
     ["schedules", "configurations"], "one and two shifts x objects x delays x focus x five settings x all scripts of draws (small, middle, large; three landing offsets); automatic buffering",
     "Tests switch the noise off; with it, which phase ends first depends on the draws.",
     [S + "vision.py", S + "productions.py", S + "utilities.py"], [("distributions", S + "utilities.py calculate_delay_visual_attention, calculate_preparation_time, calculate_execution_time, calculate_landing_site"), ("phases", S + "productions.py visualshift, visualcontinue; vision.py shift, automatic_buffering")],
     observe=["trace", "position of the eyes", "visual buffer"], technique="exhaustive scripts of random draws (the generators are owned by the harness), every run compared with a reference",
     note="Distances enter the encoding time as implemented (radians).")

prop("C28", "The trace of activations tells what decided the retrieval",
     "With activation_trace, each block that is printed for a retrieval names a matching chunk of the memory and shows its base-level learning, spreading activation, partial matching and noise, their total, and the time that its retrieval takes; the retrieved chunk is among them, no block has a higher total, and its total is also the activation stored in the buffer and its time the time that passes. "
     "A failed retrieval prints no block. "
     "The trace of activations does not change the run, and nothing is printed without it.",
     ["configurations", "inputs"], "all memories of one or two (thorough: up to four) chunks x histories x requests x eight settings of the subsymbolic parameters",
     "Tests do not read the printed components; they differ for every memory and setting.",
     [S + "declarative.py"], [("trace of activations", S + "declarative.py retrieve; utilities.py calculate_*")],
     observe=["printed lines", "activation", "trace"], technique="exhaustive enumeration of memories and settings, every printed block compared with the components of a reference",
     note="For which matching chunks besides the retrieved one a block is printed is left open.")

prop("C29", "Ill-formed input is refused and changes nothing",
     "Unknown model parameters, positive similarities, negative delays and finsts, non-string names of goal and retrieval buffers, elements that are no chunks, harvests and memories that are no memories, wrong focus positions, rules and chunks that cannot be parsed, slots called isa, changed predefined chunk types, unknown parent types, slot values that are lists or dictionaries, mismatched environments and illegal calls of modify are refused with an error, and the model stays as it was. "
     "A condition with an unknown sign raises ACTRError when it is tested, and an action with an unknown sign, a setting or modification with an unbound variable, a negated value or two values, a request with an unbound variable or two values, and an invalid or missing command, key or position raise ACTRError when that action takes place: not earlier, never silently, and no chunk is lost.",
     ["inputs", "programs"], "every ill-formed call out of a list x contents (thorough: all pairs); every ill-formed condition or action x position in a program x well-formed action beside it",
     "Tests try a few ill-formed inputs and do not compare the model afterwards.",
     [S + "buffers.py", S + "model.py", S + "productions.py", S + "utilities.py", S + "motor.py", S + "vision.py"], [("bound variables", S + "utilities.py check_bound_vars"), ("validation", S + "buffers.py, goals.py, declarative.py, vision.py, motor.py, model.py, environment.py, chunks.py")],
     observe=["exceptions", "buffers", "memory", "trace"], technique="exhaustive enumeration of ill-formed inputs x situations, the model compared before and after, and its run with that without the input",
     note="The class of the exception of a call is left open.")

prop("C30", "A buffer's name as a variable stands for the whole chunk in the buffer",
     "A variable with the name of a tested buffer stands for the chunk in that buffer: in conditions a slot with =buffer (~=buffer) holds exactly if its value is (is not) a chunk equal to that one, in whatever order the rule mentions its buffers, and actions and requests use the chunk as it was when the rule fired. "
     "With strict harvesting such a variable neither keeps a tested buffer nor clears an untested one. With production compilation, rules with such variables are compiled only into rules that do the same.",
     ["programs", "inputs"], "every condition over three buffers with at most two (thorough: three) such constraints x order x content, actions in turn; all pairs of rules over smaller alphabets",
     "Tests have hardly any rule with such variables, though the tutorials use them.",
     [S + "productions.py"], [("buffer variables", S + "productions.py test, LHStest"), ("strict harvesting", S + "productions.py update"), ("compilation", S + "productions.py compile_rules")],
     observe=["rules fired", "buffers", "compiled rules"], technique="exhaustive enumeration of rules x contents, run and compared with the reference; compiled rules run against the two rules",
     note="Goal buffers, retrieval and visual location.")

prop("C31", "A copied buffer equals its original and is independent of it",
     "Copying a goal buffer gives one with the same content and delay, harvested into the memory given to copy, or else into that of the original; copying a retrieval buffer gives one with the same content, finst, remembered retrievals and own parameters, which uses the memory given to copy, or else a copy of that of the original. "
     "Afterwards no operation on one of them (adding, clearing, modifying, creating, retrieving, changing a setting) changes the content, settings or remembered retrievals of the other, nor any memory that it does not use.",
     ["histories"], "every operation sequence before the copy, every kind of copy (also a copy of a copy), every interleaving of operations on the buffers after it",
     "No test copies a buffer, let alone uses both afterwards.",
     [S + "goals.py", S + "declarative.py", S + "buffers.py"], [("copies of goal buffers", S + "goals.py Goal.copy"), ("copies of retrieval buffers", S + "declarative.py DecMemBuffer.copy"), ("copies of memories", S + "declarative.py DecMem.copy")],
     observe=["content, settings and memories of every buffer", "what requests retrieve"], technique="exhaustive enumeration of operation sequences over original and copies against a reference of both",
     note="Two chunks; histories of three (thorough: four) operations around the copy.")


prop("C32", "A simulation uses what was last set in the model",
     "Goal buffers, retrieval buffers, memories, rules (as functions or text), their utilities and rewards, and parameters may be set, replaced, deleted and changed in any order before and between simulations: the collections of the model (goals, retrievals, decmems, productions) always hold under each name exactly what was set last, and model.goal, model.retrieval and model.decmem give the only element (an error if there is not exactly one). "
     "Replacing a buffer or memory gives a new one with its own content and delay and leaves everything else as it was; setting a list of function rules replaces all rules. "
     "Each simulation uses exactly the buffers, memories, rules, utilities, rewards and parameters that are in the model when it is started.",
     ["histories"], "every sequence of setting, replacing, deleting and changing operations up to the bound, with simulations at any place in it and at its end",
     "Tests set a model up once and simulate it once.",
     [S + "model.py", S + "productions.py", S + "goals.py", S + "declarative.py"], [("collections and accessors", S + "model.py ACTRModel.set_goal/set_retrieval/set_decmem"), ("rules", S + "productions.py Productions"), ("start of a simulation", S + "model.py ACTRModel.simulation")],
     observe=["collections and accessors of the model", "events of simulations and the buffers and memories after them"], technique="exhaustive enumeration of operation sequences on a model against a reference of what was set last",
     note="One environment-free model with up to two goal and two retrieval buffers; sequences of three (thorough: four) operations.")


def jsonl():
    out = []
    for p in P:
        a = {"files": list(p["files"]), "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        a["hook_needed"] = None
        assert len(p["title"]) <= 80, p["title"]
        out.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                               "quantifier": {"over": list(p["over"]), "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}))
    return "\n".join(out) + "\n"


def manifest():
    na = {x["property"] for x in NOT_APPLICABLE}
    return {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import pyactr, simpy, numpy'",
        "hooks": {"guard": "none", "enable": "no hooks: the checks drive the public API and observe the printed trace, buffers and memories", "source_commits": []},
        "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                    "technique": "model checking: " + p["technique"], "level": "model_checking", "level_note": p["note"],
                    "evidence_file": f"evidence/{p['id']}.json"} for p in P if p["id"] not in na],
        "not_applicable": NOT_APPLICABLE,
        "notes": "All checks execute the real code in /repo on every case of a bounded space and compare every step with a reference model; see DESIGN.md.",
    }


if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        f.write(jsonl())
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest(), f, indent=1)
        f.write("\n")
