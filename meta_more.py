prop("C02", "Generic maps, generic sets and bags obey the laws of maps, sets and multisets",
     "A genericmap maps each key (hashable or not, compared by equality) to its most recently assigned value and nothing else; a genericset holds exactly the distinct elements added and not removed, and union, intersection, difference, symmetric difference, "
     "subset and superset tests and the comparison operators agree with mathematical sets; a bag holds each element exactly as many times as it was added minus removed, and two bags are equal exactly when they hold the same elements the same number of times. "
     "Operations change only their receiver: operands, copies and previously returned item or key lists keep their contents.",
     ["histories", "inputs"], "every sequence of operations and every collection of values comparable by starlark equality",
     "No existing test touches these types beyond printing; the laws quantify over all element values (unhashable ones, equal ones that print differently) and operation histories.",
     ["lib/starlark_types.go"],
     [("entry list with equality search", "lib/starlark_types.go (*GenericMap).Get/SetKey/Delete"), ("set as map to None", "lib/starlark_types.go (*GenericSet)"), ("string-ordered element list", "lib/starlark_types.go (*Bag)")],
     [("entries", "key/value tuples in insertion order", "lib/starlark_types.go GenericMap"), ("elems", "bag elements ordered by printed form", "lib/starlark_types.go Bag")],
     ["results of every builtin method and comparison operator on genericmap, genericset, bag"],
     note="Map lookup, assignment, deletion, keys/items, set membership/insert/delete/superset/subset and bag insert/find/delete are proved for all values with starlark equality assumed an equivalence during the call; the builtin wrappers and the set-valued operations built from them (union, intersection, ...) are covered by executable contracts only (bounded).")

prop("C04", "Symmetry domains hand out only new, in-range values and never exceed their limits",
     "A value allocated from a symmetry domain is one that was not in use, belongs to that domain and carries its kind, and at most `limit` values of a domain are ever in use; when the limit or the divergence is reached the transition is disabled instead. "
     "Nominal domains allocate the smallest unused index, interval domains start at `start` and then continue right after the largest value while the spread stays within the divergence, rotational domains continue after the last allocation and wrap, ordinal values are larger than all others or lie strictly inside the gap they were requested from. "
     "values(), choices(), min(), max() and segments() report exactly the values in use, and comparison and arithmetic on the values follow the kind (no order on nominal and rotational values, wrap-around on rotational ones, no mixing of domains).",
     ["inputs", "histories"], "every kind, limit, divergence and start, every set of values already in use, and every sequence of domain operations",
     "The example specs use one or two small domains; gaps, wrap-around positions, exhausted limits and mixes of domains with values already in use are not reached.",
     ["lib/symmetry.go", "lib/starlark_types.go"],
     [("allocation", "lib/symmetry.go (*SymmetryDomain).fresh, (*Segment).fresh, midpoint"), ("values in use", "lib/symmetry.go (*SymmetryContext), ensureMaterialized"), ("arithmetic and comparison", "lib/starlark_types.go (*SymmetricValue).Binary/CompareSameType")],
     [("Cache", "domain name to ids in use", "lib/symmetry.go SymmetryContext"), ("LastAllocated", "last id handed out by a rotational domain", "lib/symmetry.go SymmetryContext")],
     ["results of fresh/values/choices/choose/min/max/segments and of operators on symmetric values"],
     note="Allocation (domain and segment), materialization, extremes, value equality and modular reduction are proved for all inputs once the state scan has run (ctx.initialized assumed; starlark.UnpackArgs and Thread.Local assumed by contract); constructors, list-valued results and operators are covered by executable contracts (bounded).")

prop("C05", "Symmetry reduction merges exactly the states that a symmetry maps onto each other",
     "Two states receive the same key in the set of visited states exactly when some renaming allowed by the declared symmetries maps one onto the other: any permutation of nominal values and of symmetric role instances, order-preserving renaming of ordinal values, shifts of interval values, rotations of rotational values, and mirror images where reflection is declared. "
     "Key computation covers values wherever they occur in the state, leaves the state unchanged, and is bypassed when symmetry reduction is off; states whose values exceed the domain's limit or divergence are pruned, and no others.",
     ["inputs"], "every state, every combination of domains and every symmetry of them",
     "Tests check a handful of fixed state counts; a missed tie or an over-eager merge silently hides or duplicates behaviours of particular states only.",
     ["lib/symmetry.go", "lib/permutations.go", "modelchecker/processor.go", "modelchecker/state_visitor.go", "modelchecker/symmetry_check.go"],
     [("canonical rotations and reflections", "lib/symmetry.go GetCanonicalRotations, GetCanonicalRotationsWithReflection, GetIntervalReflectionCandidates, GetOrdinalReflectionCandidates"), ("renamings to try", "modelchecker/processor.go getSymmetryPermutations"), ("least hash over renamings", "modelchecker/processor.go symmetricHashWithoutClone, minHashCode"), ("constraints", "modelchecker/symmetry_check.go CheckSymmetryConstraints")],
     [("permMap", "value to its image under each renaming", "modelchecker/processor.go getSymmetryPermutations")],
     ["key returned by findVisitedSymmetric", "result of CheckSymmetryConstraints"],
     note="Lexicographic comparison, rotation candidates (range and pivot), reflection candidates, least-hash selection and the collector of used values are proved for all inputs; the renaming of a whole state is covered by executable contracts against brute force over the symmetry group (bounded).")

prop("C06", "States get the same identity exactly when they are the same state",
     "The key of a state depends on everything that can influence what happens next (state variables, every role and its fields, every pending thread with its call stack, program counters, arguments, locals, remaining loop elements and finished parallel statements, which thread is current, messages in flight, and, unless excluded, the returned values) "
     "and on nothing else: not on the order in which keys were inserted or threads were started, not on how objects are laid out in memory, and not on whether the state was forked or cloned. "
     "So two different states are never merged and one state is never counted twice.",
     ["inputs"], "every pair of states",
     "Tests compare a few total node counts; a component missing from the key merges states that only particular interleavings produce, and an order dependence splits them.",
     ["modelchecker/processor.go", "modelchecker/thread.go", "modelchecker/channel_message.go", "lib/jsonmarshaller.go", "lib/starlark_role.go"],
     [("process key", "modelchecker/processor.go (*Process).HashCode"), ("heap, scope, frame, stack and thread keys", "modelchecker/thread.go Heap.HashCode, Scope.Hash, CallFrame.HashCode, CallStack.HashCode, Thread.HashCode"), ("message key", "modelchecker/channel_message.go HashCode"), ("rendering of values", "lib/jsonmarshaller.go")],
     [("CachedHashCode", "key of the state once computed", "modelchecker/processor.go, modelchecker/thread.go")],
     ["result of (*Process).HashCode", "number of distinct nodes of a state graph"],
     note="The choice of the least key is proved; the components of the key are checked by executable contracts on generated families of states (bounded). SHA-256 is taken to be injective. The rendering forgets the types of some values (known findings).")

prop("C07", "Branching copies the whole state: branches never influence each other and keep its shape",
     "When execution branches, the new state is a complete copy: it has the same values everywhere (variables, role fields and parameters, arguments, locals of every open scope, remaining loop elements, messages in flight, counters) and the same sharing - two places that held the same object hold the same object in the copy, cyclic structures and role references included - "
     "and nothing a branch does afterwards can be seen in its parent or in its siblings. deepcopy() gives a value with the same guarantees, and the check of a condition never changes the state it is checked on.",
     ["inputs", "histories"], "every object graph a state can hold, with any sharing and cycles, and every later change to any copy",
     "Tests use flat values; a container copied shallowly or a shared object split in two only shows for particular nestings combined with later mutation.",
     ["modelchecker/clone.go", "modelchecker/processor.go", "modelchecker/thread.go", "modelchecker/channel_message.go"],
     [("deep copy with table of copies", "modelchecker/clone.go deepCloneStarlarkValueWithPermutations"), ("fork and clone of a process", "modelchecker/processor.go (*Process).Fork, CloneForAssert, CloneWithRefs, MapRoleValuesInOrder"), ("scopes, frames, stacks, messages", "modelchecker/thread.go Scope.Clone, CallFrame.Clone, CallStack.Clone, modelchecker/channel_message.go Clone")],
     [("refs", "original to copy", "modelchecker/clone.go")],
     ["values reachable from a process before and after Fork, CloneForAssert and deepcopy"],
     note="Copies of scopes, frames, statistics and the list of roles are proved (freshness, equal contents, scopes sharing one table of variables) with the deep copy of one starlark value assumed by contract; that copy is covered by executable contracts (bounded): isomorphism of object graphs and non-interference under mutation of every object.")

prop("C10", "An action executes the way its statements say",
     "The executions the checker explores for a running action are exactly the ones its statements define: an atomic block runs to its end without interruption, a serial block may be interrupted between any two of its statements and nowhere else, a parallel block runs all its statements in every order, a oneof block runs exactly one of them, "
     "any picks each element that satisfies its condition, for visits each element once (in order, or in every order when parallel), while, if, break, continue, return, require and calls of actions and functions behave as in the sequential reading, nested in any way and in any flow. "
     "A step whose require fails, or that executes nothing, has no effect; no execution is lost and none is invented.",
     ["inputs", "schedules"], "every action body (any nesting of statements and flows), every state it starts in and every interleaving with other actions",
     "The tests run fixed specs and compare node counts; each nesting of one statement kind in one flow takes its own path through the interpreter, and a lost branch changes no verdict of those specs.",
     ["modelchecker/thread.go", "modelchecker/processor.go", "modelchecker/protopath.go"],
     [("statement interpreter", "modelchecker/thread.go (*Thread).Execute, executeBlock, executeStatement, executeForStatement, executeWhileStatement"), ("end of statements and blocks", "modelchecker/thread.go executeEndOfStatement, executeEndOfBlockWithForks, forkRemainingStmts"), ("branches continue their step", "modelchecker/processor.go processNode, continueStep, stepHash")],
     [("pc", "path of the next statement", "modelchecker/thread.go CallFrame"), ("skipstmts", "statements of a parallel block that ran", "modelchecker/thread.go Scope"), ("loopRange", "elements a loop has left", "modelchecker/thread.go Scope"), ("Enabled, ThreadProgress", "whether the step executed something", "modelchecker/processor.go Process")],
     ["sequences of states at yield points, with the action names on the links, and deadlocks of the explored graph"],
     note="Scopes, frames, the start of a block in each flow, the loop step of for (bind first and keep the rest; one branch per element when parallel), the end of a statement in each flow and the branches of a parallel block (one for each statement that did not run, no other) are proved for all inputs, with copying of states, path strings and the unchanging syntax tree assumed by contract; executeStatement as a whole is beyond the verifier (interface-typed AST, starlark evaluation) and is decided by comparison with an independent interpreter on generated and enumerated programs (bounded).")

prop("C11", "At every yield point exactly the permitted next steps are possible",
     "At every yield point the checker explores exactly these next steps, each of them and nothing else: every thread in progress continues, every message in flight is delivered, and - while fewer than max_concurrent_actions threads are in progress - every action other than Init of the spec and of every role instance starts, "
     "unless its own limits (max_actions and max_concurrent_actions per action, per role instance and per role) are used up. Starting an action adds one thread and counts once; ending one removes exactly that thread; no schedule starts more than max_actions actions.",
     ["schedules", "histories"], "every reachable yield point, every set of threads in progress, messages in flight and combination of limits",
     "Tests compare node counts of fixed specs; a step that is never offered in some combination of running threads, limits and messages makes the checker silently miss behaviour.",
     ["modelchecker/processor.go"],
     [("scheduling", "modelchecker/processor.go YieldNode, YieldFork, scheduleChannelMessages, ForkForAlternatePaths"), ("limits", "modelchecker/processor.go ExceedsActionCountLimits, Stats.Increment"), ("threads", "modelchecker/processor.go GetThreads, GetThreadsCount, NewThread, removeThread")],
     [("Threads, Current", "threads in progress (nil where one ended)", "modelchecker/processor.go Process"), ("Stats.Counts", "how often each action ran", "modelchecker/processor.go Stats"), ("actionDepth", "actions on the path", "modelchecker/processor.go Node")],
     ["names on the links out of each yield node, against its threads, messages and limits"],
     note="The bookkeeping of threads and the decision whether the limits allow an action are proved for all inputs (a limit that is used up blocks; an action without limits is never blocked). That all steps are offered is checked on generated programs against an independent computation from the state (bounded). Known finding: states are merged without regard to how much of a limit the schedule used.")

prop("C13", "The verdict on assertions and deadlocks is right, and the reported trace shows the violation",
     "For every specification, a run of the model checker that explores all states reports a violation of an always assertion exactly if some reachable yield point falsifies it, of a transition assertion exactly if some step from yield point to yield point falsifies it, a missing witness exactly for the exists assertions that no reachable yield point satisfies, "
     "and a deadlock exactly if some reachable yield point within the limits has no step out of it; otherwise it reports success. It names an assertion that is violated, and the trace it prints is an execution of the specification, from its initial state, that ends in the violating state, step or deadlock.",
     ["histories", "schedules"], "every specification, every mix of assertions, and every search strategy (bfs, dfs, random, processed queue)",
     "Unit tests run a handful of specs whose verdict is known; a wrong verdict on another specification makes the tool approve a broken design or reject a correct one, and cannot be told from a right one by looking at it.",
     ["modelchecker/invariants.go", "modelchecker/processor.go", "modelchecker/markovchain.go", "main.go"],
     [("assertions", "modelchecker/invariants.go CheckInvariantsWithProber, CheckTransitionInvariants, CheckSimpleExistsWitness"), ("deadlocks", "modelchecker/markovchain.go traverseBFS"), ("traces", "modelchecker/invariants.go ExtractFailurePath, graph.go ReverseLink"), ("yield points", "modelchecker/processor.go processNode, IsYieldNode")],
     [("Witness", "which witness assertions a state satisfies", "modelchecker/processor.go Process"), ("Inbound", "how a state was reached", "modelchecker/processor.go Node")],
     ["verdict lines and printed trace of the command line tool"],
     note="Which assertions a state or step falsifies, given the value of each assertion's code, the collection of witnesses, and the construction of the failure path are proved for all inputs; that all yield points are checked, and the search for deadlocks, are checked end to end on generated programs through the command line tool, against an independent interpreter (bounded).")
prop("C12", "The result does not depend on how the state space is searched or stored",
     "For every specification, breadth-first, depth-first and random search, each with and without the processed queue and with and without the state graph, explore the same states when no limit cuts the search short: they report the same number of unique states and the same kind of verdict (violation, missing witness, deadlock, success), "
     "and the breadth-first variants agree when limits do cut it short. Whatever is scheduled or found is eventually processed, exactly once; nothing is dropped on the way between the queues.",
     ["schedules", "inputs"], "every specification and every combination of search strategy, queue discipline and graph mode",
     "The tests run a few specs in a few modes; the experimental modes take their own path for duplicates, deadlocks, witnesses and traces, and what they drop shows only on specs where it matters.",
     ["modelchecker/processor.go", "lib/queue.go", "lib/stack.go", "lib/randomqueue.go", "main.go"],
     [("queues", "modelchecker/processor.go addToProcessingQueue, enqueueScheduled, publishYieldPoint, flushExpandedYieldPoints, drainAndFlush, startProcessedQueue, Start"), ("no_graph mode", "modelchecker/processor.go processNode, breakParentRef, extendPath, recordWitnesses, MissingExistsWitnesses, hasLiveSuccessor"), ("summary", "main.go modelCheckSingleSpec")],
     [("queue", "what remains to be processed", "modelchecker/processor.go Processor"), ("pendingActionStarts, expandedYieldPoints", "buffers of the processed queue", "modelchecker/processor.go Processor"), ("visited", "states seen", "modelchecker/processor.go Processor")],
     ["verdict lines and the number of unique states, over nine search modes"],
     note="That the steps between the queues neither drop nor reorder nor invent entries, that the witnesses kept without a graph are those of all yield points, and the action chain kept for traces, are proved for all inputs (the interface of the queues is described by a log of what is added; what the implementations remove is C01). That the whole search agrees over nine modes is checked on generated programs through the command line tool (bounded).")
prop("C15", "Liveness verdicts respect fairness",
     "A liveness assertion (always eventually, eventually always) is reported as failing only if some execution that satisfies the declared fairness violates it: a strongly fair step (a strong action, a fair choice, a thread in progress) possible again and again is taken again and again, a weakly fair action possible forever is taken again and again, and crashes do not repeat forever. "
     "The reported path is an execution from the initial state that ends in a violating fair loop, or in a state where nothing fair is possible. A failure by stopping, or by a fair loop that shares no state with another loop, is always reported. "
     "In the nondeterministic mode an assertion holds exactly if fair steps lead from every state to the wanted states. Steps carry the fairness their action declares.",
     ["histories", "schedules"], "every infinite execution of every specification, every mix of unfair, weakly and strongly fair actions, choices and threads",
     "Whether an infinite execution is fair depends on everything that is possible along its loop; tests contain a few loops, and a wrong verdict on another looks the same as a right one.",
     ["modelchecker/invariants.go", "modelchecker/processor.go", "main.go"],
     [("fair loops", "modelchecker/invariants.go isFairCycle, fairnessLinkName, isCrashLinkName"), ("search for loops", "modelchecker/invariants.go CycleFinderFinal, cycleFinderHelper, AlwaysEventuallyFinal, EventuallyAlwaysFinal"), ("nondeterministic mode", "modelchecker/invariants.go AlwaysEventuallyFast, EventuallyAlwaysFast, CheckFastLiveness"), ("fairness of steps", "modelchecker/processor.go Attach, processNode; thread.go Execute")],
     [("Fairness, ChoiceFairness", "fairness of a step", "modelchecker/processor.go Link"), ("Outbound", "what is possible in a state", "modelchecker/processor.go Node")],
     ["verdict and path of CheckStrictLiveness and CheckFastLiveness", "verdict lines of the command line tool"],
     note="Proved for all inputs: the name and level under which a step counts for fairness, which steps are crashes, and that a loop isFairCycle accepts takes every strongly fair step it passes by. The weak half of that judgement, the search and the verdicts are checked on generated programs (bounded) against an exact decision by strongly connected components. Complete detection of failing loops is not claimed (the search prunes loops that share states): a fixed collection is decided both ways, and the failures missed in it are listed as known findings.")
prop("C14", "Crashes happen where they may, and lose exactly what they should",
     "When crash_on_yield is on, every thread in progress may crash at every yield point and every role instance whose spec allows it may crash there too, exactly one step of each, unless the spec disables it; nothing crashes anywhere else. "
     "A crash of a thread ends that thread and changes no variable. A crash of a role instance ends the threads working in that instance and no others, sets the ephemeral fields of that instance to the values its Init set in the same behaviour, and keeps durable fields, other instances and global state as they are. "
     "With crashes off, no step of the explored graph is a crash. (A role that waits for a call it made does not crash at that point; fields first set after Init are kept.)",
     ["crash_points", "schedules", "inputs"], "every specification with roles, every placement of durable and ephemeral fields, every yield point and set of threads in progress",
     "Tests contain a handful of crashes with one instance of a role; what a crash must lose or keep depends on which threads run where, which fields are marked, and how Init set them.",
     ["modelchecker/processor.go", "modelchecker/durability.go", "lib/roles.go"],
     [("crashes of threads", "modelchecker/processor.go crashThread"), ("crashes of roles", "modelchecker/processor.go crashRole, crashRoles, crashProcess, removeThreadsOf"), ("durability", "modelchecker HasDurabilitySpec, IsFieldDurable, ResetEphemeralVariables, CopyInitValuesForEphemeralFields")],
     [("Threads", "threads in progress", "modelchecker/processor.go Process"), ("InitValues", "values Init gave to ephemeral fields", "lib/roles.go Role")],
     ["crash links of the explored graph and the states they lead to"],
     note="Which fields are durable, what is copied after Init, what a reset writes, which threads a role's crash ends and whether a thread may crash are proved for all inputs. Which crash steps exist, and that nothing else changes, is checked on generated programs against an independent interpreter (bounded).")
prop("C16", "A guided run follows its trace, and shows what lies on it",
     "Given a trace, the model checker explores exactly the paths whose steps are the lines of the trace in their order (threads that continue need no line), and, where asked for, that many further steps; without a trace nothing is restricted. "
     "It reports the violations on these paths and no others, and says how far the trace could be followed when it cannot be followed to its end; blank lines and comments of a trace file count for nothing. "
     "The trace that a run without a state graph prints leads a guided run to the same violation.",
     ["histories", "inputs"], "every specification, every trace (fitting or not) and every extension",
     "No existing test runs a guided trace; which step is allowed depends on how far each path has followed the trace, on branches that share lines, and on states the trace comes back to.",
     ["modelchecker/trace.go", "modelchecker/processor.go", "main.go"],
     [("which steps a trace allows", "modelchecker/trace.go ShouldScheduleNode, GetNextLinkName, Advance, IsExhausted"), ("trace files", "modelchecker/trace.go parseTrace, ParseTraceFile, ParseTraceString"), ("no merging", "modelchecker/processor.go findVisitedSymmetric, expandToYield"), ("verdict and replay", "main.go modelCheckSingleSpec, replayTraceWithFullState")],
     [("guidedTrace", "the trace and how far this path has followed it", "modelchecker/processor.go Process")],
     ["yield points of the guided graph, number of lines followed, verdict lines of the command line tool"],
     note="Which step a trace allows, how far it has been followed, and the reading of trace files are proved for all inputs (the scanner is specified by the sequence of its lines). That the search asks for every step and merges nothing is checked on generated programs against the complete graph, and the verdicts and replays through the command line tool (bounded). Known finding: the command line tool guides one action at a time, so a violation that needs two is not replayed.")
prop("C17", "The analysed and exported state graph is the explored one",
     "The graph on which deadlocks, witnesses and liveness are judged and which is written out consists of exactly the states that enabled steps lead to and from which a step can be completed, each once, in breadth-first order, with exactly the links between them; a step cut short by a failed require leaves no trace, and one that goes on through any branch stays. "
     "A deadlock is reported exactly if some yield point cannot complete any step although the limits allow one. "
     "The node and link files, read back, give every node with its variables, and every link with its ends, name, labels, messages, return values, threads and share; the files and drawing of an error path give its states and steps in their order.",
     ["histories", "inputs"], "every state graph: any shape, sharing between steps, disabled branches, crash links; every specification",
     "Tests count the nodes of a few graphs; a link to the wrong node, a lost branch or a misplaced state in the files changes no count there.",
     ["modelchecker/markovchain.go", "modelchecker/graph.go", "main.go"],
     [("traversal", "modelchecker/markovchain.go GetAllNodes, traverseBFS, propagateEnabled, stepStarts, isStepEnd"), ("files", "modelchecker/graph.go GenerateProtoOfJson, GenerateErrorPathProtoOfJson, returnsToNameValues"), ("drawings", "modelchecker/graph.go GenerateDotFile, GenerateFailurePath")],
     [("Outbound", "links of a node", "modelchecker/processor.go Node"), ("Enabled", "whether the step executed something", "modelchecker/processor.go Process"), ("indexMap", "position of a node in the files", "modelchecker/graph.go GenerateProtoOfJson")],
     ["result of GetAllNodes", "contents of the .pb files and of the drawings"],
     note="Proved for all inputs: what is written for nodes, ends and data of links (below the size at which node files are split), error paths, and return values (complete, sorted). The traversal is checked against its definitions on random graphs, and the files of the command line tool against the independent interpreter on generated programs (bounded).")
prop("C03", "Enumerations are complete and exact",
     "What a specification enumerates it gets in full: combinations, combinations_with_replacement, permutations, product and chain list exactly the selections by position the language reference defines, in its order, each as a value of its own, for every number of iterables of every iterable type and every length or repetition; sum is exact; enum has one member per name. "
     "The permutations symmetry reduction tries are all combinations of the permutations of each group, each once, and leave the groups as they were.",
     ["inputs"], "every number, type and size of iterables, every length and repetition, every sizes of groups",
     "A missing selection removes behaviours from the explored graph and makes the checker approve specs it never examined; tests enumerate one or two small lists.",
     ["lib/starlark_itertools.go", "lib/permutations.go", "lib/starlark_types.go"],
     [("itertools", "lib/starlark_itertools.go itertoolsChain, itertoolsCombinations, itertoolsPermutations, itertoolsProduct, itertoolsCombinationsWithReplacement"), ("permutations", "lib/permutations.go permute, combinePermutations, GenerateAllPermutations"), ("sum and enum", "lib/starlark_types.go builtinSum, MakeEnum")],
     [("result", "the selections listed so far", "lib/permutations.go permute")],
     ["values returned by the builtins and by GenerateAllPermutations"],
     note="Proved for all inputs: the number of permutations of a group and of combinations of them, and that the groups come back as they were. That the listed ones are the right ones, and the builtins (recursive closures), are checked against enumeration in a positional number system (bounded: up to 7 elements or iterables).")
prop("C21", "The same specification, options and seed give the same output",
     "Two runs of the command line tool with the same specification, options and seed print the same and write the same files, whatever order the runtime gives the entries of a map (only addresses, times and memory figures may differ), and no run ends in an internal error. "
     "The message recorded for a call between two role instances names the function and gives every argument exactly once, in the order of their names; the one for a return gives the value; messages waiting in several channels are delivered channel by channel in ascending order.",
     ["programs", "configurations"], "every specification, exploration strategy, search mode and seed",
     "The order of a map's entries is drawn anew in every run, so a test that passes once says nothing; no test compares two runs.",
     ["modelchecker/processor.go", "modelchecker/graph.go", "modelchecker/thread.go", "main.go"],
     [("recorded messages", "modelchecker/processor.go RecordCall, RecordReturn"), ("deliveries", "modelchecker/processor.go channelsWithMessages, scheduleChannelMessages"), ("files", "modelchecker/graph.go GenerateProtoOfJson, writeProtoMsgToFile, GenerateCommunicationDiagram")],
     [("Messages", "messages recorded in the current step", "modelchecker/processor.go Process"), ("ChannelMessages", "messages waiting in channels", "modelchecker/processor.go Process")],
     ["printed output, exit code and every written file"],
     note="Proved for all inputs: order and completeness of what is recorded for calls and returns, and of the channels deliveries are made from. That whole runs agree is checked by running generated specifications with calls, channels, fairness and failing assertions several times in every mode (bounded).")
prop("C08", "An assignment writes the variable that a read of its name finds",
     "A name is looked up in the scopes of the current call from the inside out, then among the arguments of the call, then in the state, then among the constants. An assignment changes exactly the variable this lookup finds, and no other variable of any scope, call or state; a new name is declared in the current scope; constants do not change. "
     "Statements that do not mention a variable leave it as it was, however the names of parameters, locals, loop variables and state overlap.",
     ["programs", "inputs"], "every chain of scopes, arguments, state and constants, and every set of names written",
     "Tests use distinct names; a write to the wrong layer shows only if two layers have the same name, and then in a later step.",
     ["modelchecker/processor.go", "modelchecker/thread.go"],
     [("reads", "modelchecker/processor.go GetAllVariablesNocopy; thread.go getAllVisibleVariablesToDictNoCopy, Lookup"), ("writes", "modelchecker/processor.go updateAllVariablesInScope, updateVariable, updateVariableInternal, updateScopedVariable; thread.go Heap.update")],
     [("vars", "variables of a scope or of a call", "modelchecker/thread.go Scope, CallFrame"), ("state", "state variables", "modelchecker/thread.go Heap")],
     ["values read by the next statement, variables of the state"],
     note="Proved for all inputs: which layer a name is read from, which one a write changes, and that nothing else changes, for single writes and whole dictionaries. Assumed: maps.Copy and maps.Clone do what they say; scopes form finite chains. Programs with overlapping names are compared with an independent interpreter (bounded).")

prop("C22", "A record has one value per field, and an update changes one field",
     "Reading a field of a record gives the value last given to it, by its construction, by an assignment of the field, by replacing all fields or by adding two records; a field that was never given is an error. An assignment changes that field and no other. "
     "Adding two records gives a new record with the fields of both, the right one winning, and leaves the operands as they were. Two records are equal only if they have the same fields. The fields are listed, printed and saved in the order of their names, whatever order they were given in.",
     ["inputs", "histories"], "every record, every sequence of assignments, replacements and additions",
     "Reading is a binary search that relies on an order every update has to keep; tests use records of two or three fields, given in order.",
     ["lib/starlarkstruct.go"],
     [("updates", "lib/starlarkstruct.go SetField, ReplaceEntriesFromStringDict, FromStringDict, Binary"), ("reads", "lib/starlarkstruct.go Attr, AttrNames, ToStringDict, structsEqual")],
     [("entries", "the fields in the order of their names", "lib/starlarkstruct.go Struct")],
     ["values of the fields, the printed record, equality"],
     note="Proved for all inputs: reads, assignments, replacement, construction from a dictionary or from keywords, addition (every field of both operands, the right one winning), the order, and that equal records have the same names. Assumed: sort.Sort sorts by Less (Len, Less and Swap are under contract), dictionary reads. That an addition has no further fields, equality of values and printing: compared with a map over random histories (bounded).")

prop("N01", "A specification is translated to the syntax tree its text means",
     "The parser accepts exactly the grammar, and the tree it writes for the model checker has the statements, flows and conditions of the text.",
     ["programs"], "every text", "Tests parse a few files.", ["parser/parser.py"], [("translation", "parser/parser.py")],
     note="", claim=False, reason="The translator is Python generated from an ANTLR grammar; no deductive verifier for Python is present, and the ANTLR runtime it needs is not installed, so it cannot even be run here.")
prop("N02", "Every run that violates a liveness property is found",
     "If some infinite run of the specification that meets its fairness assumptions violates an eventuality, the strict search reports one.",
     ["histories"], "every specification and every infinite run", "Tests check a few specifications.", ["modelchecker/invariants.go"], [("search", "modelchecker/invariants.go CheckStrictLiveness")],
     note="", claim=False, reason="The search gives up loops that share states with one it has seen, so completeness does not hold of the code; what it does find is C15, and the failures it is known to miss are listed there as known findings.")
prop("N03", "Steady-state probabilities converge to those of the chain",
     "The performance report gives the stationary distribution and the expected counters of the Markov chain of the specification.",
     ["inputs"], "every chain", "Tests use two chains.", ["modelchecker/markovchain.go"], [("iteration", "modelchecker/markovchain.go")],
     note="", claim=False, reason="A statement about the limit of an iteration in floating point; the verifier treats floating point as uninterpreted and has no theory of convergence.")
prop("N04", "Model-based tests run in parallel give the verdict of some serial run",
     "A model-based test accepts a system under test if, and only if, every response can be explained by an order of the concurrent actions.",
     ["schedules", "programs"], "every system under test and every interleaving", "Tests use one system.", ["mbt/lib/go"], [("runner", "mbt/lib/go")],
     note="", claim=False, reason="The runner drives another process over the network with goroutines; govc handles sequential Go and has no model of goroutines, channels or the remote process.")
