M = "TLA+ model checking (TLC) + trace validation of the real code against the specification"
ASSUME = (" Design model checked exhaustively by TLC within its constants; the real code is bound to it by validating recorded "
          "runs of randomly generated and enumerated scenarios, so violations outside the explored programs/schedules can be missed. "
          "Trusts TLC, CPython and the recorder in vp/.")
prop("C02", "Execution computes exactly the requested values",
     "For every dataflow and every request, the driver returns for each requested name the value of its function applied to the values of "
     "its parameters, where inputs, configuration, declared defaults and overrides supply the leaves. Every function the request needs is "
     "called exactly once, after everything it depends on, with exactly those arguments; no other function is called, and overridden ones never. "
     "If a function raises, its error reaches the caller and nothing downstream of it runs.",
     ["programs", "inputs"], "all acyclic dataflows, requests (outputs, inputs, overrides incl. falsy values) and failing functions",
     "Tests sample a few fixed graphs; the guarantee is over all graph shapes, value kinds and override/default combinations.",
     ["hamilton/driver.py", "hamilton/graph.py", "hamilton/execution/graph_functions.py"],
     [("depth-first memoised evaluation", "execution/graph_functions.py:execute_subdag"), ("request entry", "driver.py:Driver.execute"),
      ("pruning of intermediate values", "execution/graph_functions.py:execute_subdag")],
     M, "Dataflow.tla/Exec.tla state the denotation and the allowed call sequences." + ASSUME)
prop("C03", "Task-based execution means the same as in-memory execution",
     "For every dataflow without parallel blocks, every grouping of nodes into tasks and every executor, a request gives the same values, "
     "calls the same functions the same number of times and reports the same failures as plain in-memory execution.",
     ["programs", "inputs", "schedules"], "all dataflows, requests, built-in groupings, executors and task completion orders",
     "Equivalence is a relation between two engines over all programs; the tests fix a handful of programs and orders.",
     ["hamilton/driver.py", "hamilton/execution/grouping.py", "hamilton/execution/state.py", "hamilton/execution/executors.py"],
     [("task planning", "execution/grouping.py:create_task_plan"), ("binding of task inputs", "execution/state.py:ExecutionState.bind_task"),
      ("groupings", "execution/grouping.py")],
     M, "Same specification as C02, driven through the task engine under scripted and real thread schedules." + ASSUME)
prop("C04", "Parallel blocks: once per item, isolated, collected in item order",
     "Every node between an expanding node and its collecting node is evaluated exactly once per item with that item's values only; the "
     "collecting node is called once, after all items, with the results in the order of the items, including zero items, equal items and "
     "chained blocks. This holds for every number of items, completion order, rejection of submissions and number of workers.",
     ["programs", "inputs", "schedules", "fault_sequences"], "all programs with (chained) blocks, item lists, schedules and failing items",
     "Order and isolation errors only show for particular completion orders and item counts.",
     ["hamilton/execution/state.py", "hamilton/execution/grouping.py", "hamilton/execution/executors.py", "hamilton/htypes.py"],
     [("expansion", "execution/state.py:realize_parameterized_group"), ("gathering", "execution/state.py:bind_task"),
      ("block discovery", "execution/grouping.py:GroupByRepeatableBlocks")],
     M, "Par.tla/ParDen.tla give the per-item denotation and allowed interleavings." + ASSUME)
prop("C05", "The task scheduler is safe and terminates",
     "Whatever the executors do, a task is handed out only when everything it depends on has finished successfully, at most once, only to an executor "
     "that has just agreed to take it, and nothing is handed out after a failure was seen. Executors are provisioned before and released after "
     "every request exactly once, also when it fails, a pool never runs more tasks at once than its limit but does run that many in parallel, "
     "and if all tasks finish the request finishes.",
     ["schedules", "fault_sequences", "programs"], "all accept/reject decisions, completion orders, task failures and submission failures",
     "The number of schedules is exponential; tests exercise the real pool in whatever order it happens to take.",
     ["hamilton/execution/executors.py", "hamilton/execution/state.py"],
     [("main loop", "execution/executors.py:run_graph_to_completion"), ("task states", "execution/state.py:update_task_state")],
     M, "TaskSched.tla is checked for safety and liveness; the real scheduler runs under exhaustively enumerated decision prefixes." + ASSUME)
prop("C06", "Lifecycle hooks wrap exactly what they claim to wrap",
     "For every request and every set of adapters, each function execution is preceded by all pre-node hooks and followed by all post-node hooks, "
     "in registration order, with the arguments, result, error and success flag of that very execution; task and graph hooks enclose their tasks and "
     "the request in the same way, exactly once, also on failure. A raising pre-node hook prevents the function from running; every hook of a "
     "request sees the same run id, and different requests have different ones.",
     ["programs", "inputs", "fault_sequences", "schedules"], "all programs, adapter sets, engines (in-memory, task-based, async), failing bodies and hooks",
     "Pairing must hold on every path, including failures in the middle; tests look at a few happy and failing paths.",
     ["hamilton/lifecycle/base.py", "hamilton/lifecycle/api.py", "hamilton/execution/graph_functions.py", "hamilton/execution/executors.py",
      "hamilton/driver.py", "hamilton/async_driver.py"],
     [("node lifecycle", "execution/graph_functions.py:execute_lifecycle_for_node"), ("task lifecycle", "execution/executors.py:base_execute_task"),
      ("dispatch", "lifecycle/base.py:LifecycleAdapterSet")],
     M, "Life.tla is the lifecycle state machine per lane." + ASSUME)
prop("C07", "The async driver means the same as the synchronous one",
     "For every dataflow mixing synchronous and coroutine functions and every valid request, awaiting the async driver gives the value the synchronous "
     "semantics prescribes, with each needed function run once, under every interleaving of the event loop. Independent coroutine functions do overlap, and "
     "concurrent requests on one driver do not influence each other.",
     ["programs", "inputs", "schedules"], "all dataflows, sets of concurrent requests and event-loop interleavings",
     "Interleavings of concurrent requests are not enumerated by tests.",
     ["hamilton/async_driver.py"],
     [("node tasks", "async_driver.py:AsyncGraphAdapter.do_node_execute"), ("request", "async_driver.py:AsyncDriver.raw_execute")],
     M, "Same specification as C02, driven through the async driver with randomised awaits and rendezvous." + ASSUME)
prop("C13", "Invalid requests are rejected before anything runs; valid ones never are",
     "A request that lacks a needed input, names an unknown output, gives a name both as configuration and as input, or gives an input of a "
     "type that contradicts its declaration is rejected with an error before any function runs. A request without such a defect is never rejected, "
     "and the explicit validation call agrees with what executing does.",
     ["programs", "inputs", "configurations"], "all dataflows, configurations, requests and declared types",
     "Soundness and completeness of validation quantify over all requests.",
     ["hamilton/driver.py", "hamilton/graph.py", "hamilton/base.py", "hamilton/htypes.py"],
     [("input validation", "driver.py:Driver.validate_inputs"), ("explicit validation", "driver.py:Driver.validate_execution")],
     M, "Dataflow.tla defines Missing/Unknown/Clash/BadTyped and hence which requests are rejected." + ASSUME)
prop("C08", "Caching never changes results",
     "For every history of runs with caching enabled - over changing inputs, overrides, configuration, edited functions, restarted processes, shared "
     "cache directories, caching behaviours and execution engines - every run returns exactly what the same program would return without a cache. In particular a "
     "change in a function's own source, in its (directly or transitively) used values, in the configuration or in a default value is never answered with a result computed before it. "
     "(Assumes what the documentation assumes: helper functions and module constants are not versioned, functions are deterministic unless marked for recomputation, do not modify their "
     "arguments, and IGNORE means that the node is not part of the key.)",
     ["histories", "programs", "inputs", "configurations"], "all histories of builds, edits, runs and deletions over one or several stores",
     "Staleness needs a particular sequence of runs and edits; tests fix a few two-run sequences.",
     ["hamilton/caching/adapter.py", "hamilton/caching/cache_key.py", "hamilton/caching/fingerprinting.py", "hamilton/caching/stores/*.py"],
     [("decide and key", "caching/adapter.py:HamiltonCacheAdapter.do_node_execute"), ("cache key", "caching/cache_key.py:create_cache_key"),
      ("code version", "caching/adapter.py:_version_code/graph_types.hash_source_code")],
     M, "Cache.tla: stores, keys, behaviours and runs as state; CacheMC checks Transparent for all bounded histories." + ASSUME)
prop("C09", "Cached work is reused exactly when it may be",
     "With caching on, a node whose function, configuration and argument values have been seen before (with its result still stored) is not executed again, and "
     "one that has not been seen is executed exactly once; nodes not needed are not executed. RECOMPUTE always executes, DISABLE and IGNORE store nothing and always execute, "
     "a behaviour given to the driver beats one in @cache which beats the default; expanding nodes of parallel blocks recompute. Comments, docstrings and formatting do not invalidate. "
     "The cache's log, its record of behaviours and its stores tell what really happened.",
     ["histories", "programs", "configurations"], "all histories of builds, edits and runs, and all behaviour assignments",
     "Reuse depends on the whole history; the tests look at single pairs of runs.",
     ["hamilton/caching/adapter.py", "hamilton/caching/cache_key.py"],
     [("behaviours", "caching/adapter.py:resolve_behaviors"), ("decide", "caching/adapter.py:do_node_execute"), ("logs", "caching/adapter.py:logs")],
     M, "Cache.tla decides per node and run whether it must, may or must not execute." + ASSUME)
prop("C10", "The cache survives lost, torn and contended storage",
     "If stored results are missing, truncated, replaced by garbage or disappear at any moment, if metadata is lost between sessions, if a process dies at any point of any store operation, or if "
     "several processes or threads use the same cache directory at once, then later runs still return correct values: damaged entries are recomputed, never returned and never raised.",
     ["crash_points", "fault_sequences", "histories", "schedules"], "all crash points of all store operations, damaged entries and concurrent runs",
     "Crash points and concurrent accesses are not sampled by unit tests at all.",
     ["hamilton/caching/adapter.py", "hamilton/caching/stores/file.py", "hamilton/caching/stores/sqlite.py"],
     [("retrieval and recovery", "caching/adapter.py:get_result/do_node_execute"), ("file store", "caching/stores/file.py:FileResultStore.set")],
     M, "Cache.tla with fault and crash actions; real processes are killed at every store operation." + ASSUME)
prop("C11", "Cache stores behave like one shared map",
     "Every metadata store and result store behaves like a map from key to last written value: what was set is what get returns, exists tells whether, delete and delete_all remove exactly that, "
     "deleting is idempotent, runs are listed in order with their nodes - for every sequence of operations through any number of handles on the same path, "
     "after reopening, from several threads, and after copying in memory stores to or from disk. Clearing one kind of store leaves the other intact.",
     ["histories", "inputs", "schedules"], "all sequences of store operations over handles, keys and values",
     "Interference between handles and leftovers of earlier operations show only in longer sequences.",
     ["hamilton/caching/stores/base.py", "hamilton/caching/stores/file.py", "hamilton/caching/stores/sqlite.py", "hamilton/caching/stores/memory.py"],
     [("file results", "caching/stores/file.py"), ("sqlite metadata", "caching/stores/sqlite.py"), ("memory", "caching/stores/memory.py")],
     M, "Stores.tla is the reference map; recorded operation sequences are validated against it." + ASSUME)
prop("C16", "Parameterising and extracting decorators mean exactly what they bind",
     "For every function decorated with @parameterize, @parameterize_values, @parameterize_sources, @inject, @extract_fields, @extract_columns or @parameterize_extract_columns, "
     "the dataflow contains exactly the declared outputs, and each output is the function called once with each parameter replaced by what was declared for that very output: the literal value, the value of the "
     "named source, the list or dict of a group() in the declared order, and everything not replaced as usual, including declared defaults when an optional source is not supplied. "
     "An extracted field or column is what the function returned under that name, the fill value if it returned none and one is declared, and an error otherwise. Outputs of one function never influence each other.",
     ["programs", "inputs", "configurations"], "all parameterisations (names, sources, literals incl. falsy values, groups, defaults), field sets and requests",
     "The tests check one small example per decorator; name clashes, defaults, falsy values and combinations are open-ended.",
     ["hamilton/function_modifiers/expanders.py", "hamilton/function_modifiers/base.py", "hamilton/function_modifiers/dependencies.py", "hamilton/node.py"],
     [("parameterize", "function_modifiers/expanders.py:parameterize.expand_node"), ("extraction", "function_modifiers/expanders.py:extract_fields.transform_node"),
      ("extract columns", "function_modifiers/expanders.py:extract_columns.transform_node")],
     M, "Modifiers.tla gives the denotation of decorated declarations; ModMC checks its laws." + ASSUME)
prop("C17", "Pipes, mutations and replaced bodies are plain function composition",
     "A function decorated with @pipe_input receives, for the chosen parameter, the result of applying the active steps in order to the original value; with @pipe_output or @mutate, the output "
     "that the rest of the dataflow sees is the active steps applied in order to the original result (available as name.raw), for exactly the outputs the step targets. Every step gets its chained value plus its own bound literals and sources, also "
     "when their names clash, and is a node of its own under the documented name. With @does, the replacing function is called with the declared parameters under the mapped names. "
     "Steps used in several places, or refined with different conditions or names, do not influence each other.",
     ["programs", "inputs", "configurations"], "all step sequences, bindings, conditions, names, namespaces, targets and argument mappings",
     "Composition has to hold for every chain and name choice; tests fix short chains.",
     ["hamilton/function_modifiers/macros.py", "hamilton/node.py", "hamilton/function_modifiers/base.py"],
     [("chaining", "function_modifiers/macros.py:chain_transforms"), ("outputs", "function_modifiers/macros.py:pipe_output.transform_node"),
      ("mutate", "function_modifiers/macros.py:mutate"), ("does", "function_modifiers/macros.py:does"), ("rebinding", "node.py:Node.reassign_inputs")],
     M, "Modifiers.tla (Chain, PipeIn, PipeOut); law PipeIsFold." + ASSUME)
prop("C18", "Configuration selects exactly the matching implementations",
     "A function with @config.when/when_not/when_in/when_not_in (several conditions all have to hold; an absent key reads as None) is part of the dataflow if and only if its conditions hold, under its name without the __suffix or the given name; if two active implementations define "
     "the same name, building is refused, if none does, the name is an outside input. The same holds for conditional pipe steps and for decorators delayed with @resolve, which see the "
     "configuration values or their declared defaults. The result depends on the configuration of that build only: building the same module again, under another configuration, in the same process, gives the same as in a fresh one.",
     ["programs", "configurations", "histories"], "all sets of implementations and conditions, and all sequences of configurations the module is built with",
     "Selection is a function of all condition/configuration combinations and must not remember earlier builds.",
     ["hamilton/function_modifiers/configuration.py", "hamilton/function_modifiers/delayed.py", "hamilton/function_modifiers/base.py", "hamilton/graph.py"],
     [("conditions", "function_modifiers/configuration.py:ConfigResolver"), ("resolution", "function_modifiers/base.py:resolve_nodes"), ("delayed", "function_modifiers/delayed.py:resolve"),
      ("duplicates", "graph.py:create_function_graph")],
     M, "Modifiers.tla (Holds, Active, Ambiguous); law ConfigSelects." + ASSUME)
prop("C19", "A subdag is its module evaluated in a namespace of its own",
     "For every @subdag and @parameterized_subdag, nested to any depth, the nodes of the namespace have the values that the inner functions have when run alone with the declared inputs and with the "
     "subdag's configuration on top of the surrounding one; the decorated function receives the inner values it names (or, if listed as external, the outer ones). Nothing inside is visible "
     "or altered outside except under the namespace, equal names inside and outside do not meet, and the parts of a parameterised subdag get their own inputs and configuration on top of the shared ones, independently.",
     ["programs", "inputs", "configurations"], "all inner modules, bindings, configurations, nestings and parts",
     "Capture and leakage errors only show for particular name coincidences and nestings.",
     ["hamilton/function_modifiers/recursive.py"],
     [("generation", "function_modifiers/recursive.py:subdag.generate_nodes"), ("namespacing", "function_modifiers/recursive.py:subdag.add_namespace"),
      ("parts", "function_modifiers/recursive.py:parameterized_subdag")],
     M, "Modifiers.tla (Subdag); law SubdagIsInlining." + ASSUME)
prop("C01", "The graph is the one the modules and the configuration denote",
     "Building a driver from modules and a configuration gives one node for every public function defined in the modules (not private ones, not imported ones), plus one for every configuration key and every "
     "outside input; a later module's definition wins if overriding is allowed and building is refused otherwise; a configured name is that value and hides the function. Every node has the dependencies, "
     "optional/required status, default, type, tags and documentation the function declares, and incompatible types between a function and its consumer, or between consumers of one input, are refused while compatible ones are accepted. "
     "Every static validator given to the builder is asked about every node and about the graph, and building is refused exactly if one of them objects. "
     "The node set does not depend on what else was built before.",
     ["programs", "configurations"], "all sets of modules, signatures, annotations, tags, module orders and configurations",
     "The tests build a few fixed modules; the correspondence is over all modules, overrides and type combinations.",
     ["hamilton/graph.py", "hamilton/graph_utils.py", "hamilton/node.py", "hamilton/htypes.py"],
     [("graph creation", "graph.py:create_function_graph"), ("function discovery", "graph_utils.py:find_functions"), ("edges and type checks", "graph.py:add_dependency"),
      ("type compatibility", "htypes.py:types_match"), ("nodes", "node.py:Node.from_fn")],
     M, "Graph.tla denotes modules+configuration; types are three-valued (must accept, must refuse, open)." + ASSUME)
prop("C14", "Questions about the graph are answered from the graph",
     "For every dataflow, list_available_variables with any tag filter, what_is_upstream_of, what_is_downstream_of, what_is_the_path_between, has_cycles, the exported execution plan and the drawings show exactly the nodes "
     "(and edges) the question denotes: transitive dependencies, transitive dependants, the nodes on some path, those with the tag values asked for, those a request with its inputs and overrides uses. Unknown names are refused, every node is listed once, "
     "and asking changes nothing and runs no function.",
     ["programs", "inputs"], "all dataflows (also cyclic ones), names, tag filters, requests and drawing options",
     "Reachability and lineage answers are over all graph shapes; tests ask a few questions of a few graphs.",
     ["hamilton/driver.py", "hamilton/graph.py", "hamilton/graph_types.py"],
     [("lineage", "driver.py:Driver.what_is_upstream_of"), ("paths", "driver.py:Driver._get_nodes_between"), ("tag filter", "driver.py:Driver.list_available_variables"), ("drawing", "graph.py:create_graphviz_graph"),
      ("export", "driver.py:Driver.export_execution")],
     M, "Graph.tla defines Up, Down, Path, Cyclic, Listed, Used." + ASSUME)
prop("C20", "Builders and drivers are independent of each other",
     "In every sequence of builder calls, copies, builds and requests, a builder is changed only by calls on that very builder, a copy starts equal and is independent from then on, and a driver is what its builder was at the moment of build(): "
     "later calls on the builder, other drivers of the same builder, earlier requests, and requests on other drivers do not change what it computes, which adapters it calls or what its graph is; an adapter given to a builder (a hook, a static validator) is in force for every driver built from it, synchronous or async. Settings that may be given once are refused the second time, those that need dynamic "
     "execution are refused without it, and the caller's own dicts and lists (configuration, inputs, overrides, adapters) are left as they were. This holds for the synchronous and the async builder.",
     ["histories", "programs", "configurations"], "all sequences of builder, driver and request operations",
     "Aliasing shows only in particular sequences of operations on several builders and drivers.",
     ["hamilton/driver.py", "hamilton/async_driver.py", "hamilton/graph.py"],
     [("builder", "driver.py:Builder"), ("copy", "driver.py:Builder.copy"), ("async builder", "async_driver.py:Builder"), ("driver construction", "driver.py:Driver.__init__"), ("graph with configuration", "graph.py:FunctionGraph")],
     M, "Session.tla is the state machine of builders and drivers; SessMC checks SnapshotStable and CopyIndependent." + ASSUME)
prop("C15", "Loading and saving move exactly the dataflow's data",
     "For every dataflow with loaders and savers, attached by @load_from, @save_to, @dataloader, @datasaver or given as materializers to materialize() or the builder: a function receives exactly what its loader returned for the arguments the dataflow gives the loader "
     "(literal or from another node, whatever those are called), each selected loader runs once and, for several registered implementations, the last one registered that accepts the type; a saver saves exactly the (combined) result asked for, with its own arguments, once, and only when requested; "
     "loading metadata and saving metadata are the adapter's own; from_ replaces the named node and only that; the other results are those the dataflow gives without savers; unknown targets, duplicate ids, types nobody can load or save, and missing or unknown arguments are refused; "
     "errors of the adapter or of the dataflow come out as they are, with hooks balanced.",
     ["programs", "inputs", "histories"], "all dataflows, adapters, arguments, targets, requests and sequences of materialize() on one driver",
     "Loader and saver wiring depends on name coincidences, argument sources and combinations of materializers, which tests sample one at a time.",
     ["hamilton/io/materialization.py", "hamilton/function_modifiers/adapters.py", "hamilton/driver.py", "hamilton/io/data_adapters.py"],
     [("materializers", "io/materialization.py:modify_graph"), ("materialize", "driver.py:Driver.materialize"), ("load_from", "function_modifiers/adapters.py:LoadFromDecorator"), ("save_to", "function_modifiers/adapters.py:SaveToDecorator"),
      ("dataloader/datasaver", "function_modifiers/adapters.py:dataloader"), ("argument resolution", "function_modifiers/adapters.py:resolve_dependencies")],
     M, "IO.tla denotes the graph with loaders and savers and what each adapter must be called with; IOMC checks SaversTransparent, LoaderReplaces, OrderFree." + ASSUME)
prop("C21", "Run tracking reports exactly what happened",
     "With the tracking adapter on (synchronous, task-based with parallel blocks, or async), for every run: the run is registered once, under its own graph, code, configuration and requested outputs, and ends with the status the run had; every executed node, once per parallel task, is reported with its status, "
     "a time interval containing its execution, the tags it has, and a summary of its result or the error it raised; sampling drops or keeps whole blocks but never failures. Every update handed to the client before stop() or the end of the process reaches the backend exactly once, those of one run in the order handed over, whatever the "
     "batch sizes and timing; a value that cannot be serialised or a refused request costs at most that request; and tracking never changes a result or an error.",
     ["schedules", "histories", "programs"], "all programs, interleavings of producers, worker and stop, batch boundaries, refused requests",
     "Lost, duplicated or mixed-up updates show only for particular timings of the worker thread, parallel tasks and object lifetimes.",
     ["ui/sdk/src/hamilton_sdk/adapters.py", "ui/sdk/src/hamilton_sdk/api/clients.py", "ui/sdk/src/hamilton_sdk/tracking"],
     [("client worker", "ui/sdk/src/hamilton_sdk/api/clients.py:BasicSynchronousHamiltonClient"), ("tracker", "ui/sdk/src/hamilton_sdk/adapters.py:HamiltonTracker"), ("async tracker", "ui/sdk/src/hamilton_sdk/adapters.py:AsyncHamiltonTracker"),
      ("run state", "ui/sdk/src/hamilton_sdk/tracking/trackingtypes.py"), ("serialisation", "ui/sdk/src/hamilton_sdk/tracking/utils.py:make_json_safe")],
     M, "Track.tla is the client (queue, batch, worker, stop) with a backend that may refuse, and the run automaton; TrackMC checks NothingLost, ExactlyOnce, InOrder under fairness." + ASSUME)
prop("C12", "Checked data is really checked, and only good data goes on",
     "For every function with @check_output or @check_output_custom, alone or combined with @extract_fields, @parameterize, @config and every target_: each declared check is applied, once per computation, to exactly the value the function computed (or the override of <node>_raw) and decides by its documented meaning "
     "(inclusive range, allowed values ignoring NA, fraction of NaNs, data type, sample standard deviation, mean, None, substrings, pandera schema). If a check of importance fail does not pass, the run ends with DataValidationError naming every failed check of that node and nothing downstream is computed; a failing check of importance warn is logged, each time, "
     "with node and validator name; checks that pass are silent; and the data that goes on is the very same, unchanged object. The results of the validators and the unchecked value are available under <node>_<validator> and <node>_raw, marked by tags; checks that do not fit the type or have impossible arguments are refused when the driver is built.",
     ["programs", "inputs", "histories"], "all functions, checks, targets, values, overrides and engines (also per item of parallel blocks)",
     "Borders, missing values, names of several checks and interplay with other decorators are an unbounded space; tests sample single values.",
     ["hamilton/function_modifiers/validation.py", "hamilton/data_quality"],
     [("check nodes", "function_modifiers/validation.py:BaseDataValidationDecorator.transform_node"), ("actions", "data_quality/base.py:act_fail_bulk"), ("validators", "data_quality/default_validators.py"), ("pandera", "data_quality/pandera_validators.py")],
     M, "DQ.tla gives the meaning of every check, the graph a decorated function denotes and what a run with bad data does; DQMC checks CheckedBeforeUse, EndsRight, WarnTransparent and laws of the checks." + ASSUME)
prop("C22", "Tolerated errors become the sentinel, and only those",
     "Under GracefulErrorAdapter, for every dataflow, engine and pattern of failing functions: a function that raises the configured error (or a subclass) yields the sentinel and any other error ends the run as it would without the adapter; a function given a value equal to and of the type of the sentinel, "
     "from a failure or not, is not called and yields the sentinel, unless it is marked with accept_error_sentinels and injection is allowed, when it is called with the sentinel as it is; a failing generator of a parallel block passes on what it produced before and one sentinel (try_all_parallel) or only one sentinel; "
     "everything else is called exactly once with what the dataflow gives it, and without failures nothing changes; no run, item or other dataflow using the adapter influences another.",
     ["programs", "inputs", "histories"], "all dataflows, failure patterns, sentinels, settings, engines, sequences of runs and drivers sharing an adapter",
     "Which functions are pruned depends on combinations of failures, values that look like sentinels, parallel items and earlier runs; tests sample a few.",
     ["hamilton/lifecycle/default.py"], [("GracefulErrorAdapter", "lifecycle/default.py:GracefulErrorAdapter"), ("marker", "lifecycle/default.py:accept_error_sentinels")],
     M, "Adapters.tla denotes a run with failing functions, plain and under the adapter; AdaptersMC checks Transparent, CaughtStays, NeverFed, Once, Keeps, Fails over all small programs and failures." + ASSUME)
prop("C23", "Shipped observers report what happened; type checking is exact",
     "For every dataflow, engine and failing function: attaching PrintLn, OpenTelemetryTracer, SlackNotifier, OpenLineageAdapter, ProgressBar or SlowDownYouMoveTooFast, in any number and also shared between drivers, changes neither results, calls nor errors; PrintLn announces each selected node execution once before and once after it with its status, the tracer records "
     "one span per run and node execution with its status, nested in the run, Slack is told each failure and only failures, lineage gets START and then COMPLETE or FAIL. With FunctionInputOutputTypeChecker, a function whose argument or result does not conform to its annotation (classes, Optional and unions of both spellings, Literal, Annotated, lists, sets, dicts, fixed and "
     "variable tuples and further containers, nested, Parallelizable and Collect) ends the run with a TypeError naming it, before it is called or its result used, on every call; conforming values never do, checks switched off are not made, and errors of functions come out as they are.",
     ["programs", "inputs", "histories"], "all dataflows, adapters, filters, types, values, engines and sequences of runs",
     "Observers act on state kept between hooks, tasks and runs, and types nest without bound.",
     ["hamilton/lifecycle/default.py", "hamilton/plugins", "hamilton/htypes.py"],
     [("type test", "htypes.py:check_instance"), ("type checker", "lifecycle/default.py:FunctionInputOutputTypeChecker"), ("PrintLn", "lifecycle/default.py:PrintLn"), ("spans", "plugins/h_opentelemetry.py"), ("alarms", "plugins/h_slack.py"), ("lineage", "plugins/h_openlineage.py"), ("progress", "plugins/h_tqdm.py")],
     M, "Adapters.tla says which executions a run has and hence what each observer owes; TypeCheck.tla is the conformance relation of values to types, TypeMC checks its laws (unions, Annotated, containers, tuples)." + ASSUME)
prop("C24", "with_columns hands on the dataframe with exactly the computed columns",
     "For every function decorated with with_columns (pandas, polars eager and lazy), from a module or functions, with columns_to_pass or on_input, with or without select, namespace and configuration: the decorated function is called with the frame it would have got, unchanged in rows and in columns not selected, with every selected column "
     "(without select: every function giving a column under the present configuration, and the passed columns) set to what its function gives for the columns of the original frame, other columns' functions, plain values and outer nodes it depends on, existing columns keeping their place and new ones following; only needed functions run, each once; the original frame, which "
     "other nodes or runs may use, is not changed; decorated functions chain; a column both passed and computed, missing columns and missing inputs are refused; errors come out as they are. Neither another configuration nor another driver on the same code changes that.",
     ["programs", "inputs", "histories"], "all column functions, frames, selections, configurations, namespaces, chains of decorated functions, sequences of drivers and runs",
     "Wiring depends on name coincidences of columns, functions, parameters and outer nodes, and decorators live on between drivers.",
     ["hamilton/function_modifiers/recursive.py", "hamilton/plugins/h_pandas.py", "hamilton/plugins/h_polars.py", "hamilton/plugins/h_polars_lazyframe.py"],
     [("wiring", "function_modifiers/recursive.py:with_columns_base"), ("pruning", "function_modifiers/recursive.py:prune_nodes"), ("pandas", "plugins/h_pandas.py:with_columns"), ("polars", "plugins/h_polars.py:with_columns"), ("lazy", "plugins/h_polars_lazyframe.py:with_columns")],
     M, "Cols.tla denotes frames, column functions and decorated functions; ColsMC checks laws (rows and other columns kept, order of functions irrelevant, pruning changes nothing) over all small programs." + ASSUME)
prop("C25", "The result object holds exactly the requested outputs",
     "For every set of outputs, order of the request and engine (in-memory, legacy, task-based, async, dask): DictResult holds the requested names in requested order with the computed objects themselves; PandasDataFrameResult is one row of the plain values, the frame itself if that is all there is, or a table with one column per output (name.column for columns of frames), in requested order, "
     "in which indexed outputs are joined on their labels - every label once, its own value where an output has it, missing where not -, plain values are repeated and unindexed ones taken by position; the strict builder refuses exactly differing (or no) index types; NumpyMatrixResult has one column per output with plain values repeated; the polars builders give the columns as they are. "
     "Overrides and inputs count as outputs like others; clashing column names, differing lengths and other impossible tables are refused, never silently dropped, cut or overwritten.",
     ["inputs", "programs"], "all outputs (plain, arrays, series, frames, empty, missing cells, clashing names, index types), requests and engines",
     "What a table must contain depends on combinations of shapes, labels, types and names of all outputs.",
     ["hamilton/base.py", "hamilton/driver.py", "hamilton/async_driver.py", "hamilton/plugins/h_dask.py", "hamilton/plugins/h_polars.py"],
     [("pandas", "base.py:PandasDataFrameResult.build_result"), ("strict", "base.py:StrictIndexTypePandasDataFrameResult"), ("numpy", "base.py:NumpyMatrixResult"), ("polars", "plugins/h_polars.py:PolarsDataFrameResult"), ("lazy", "plugins/h_polars_lazyframe.py:PolarsLazyFrameResult"), ("order", "driver.py:Driver.execute")],
     M, "Results.tla says when a table can be made and which it is; ResultsMC checks it is unique up to row order, keeps every value and does not depend on the order of requests." + ASSUME)
prop("C26", "Shipped data adapters pass on what they are given and load back what was saved",
     "For every shipped pandas, polars (eager and lazy), numpy, matplotlib and plotly data loader or saver and every assignment of its arguments, falsy values and defaults included: the library function behind it is called exactly once, on every use, with each argument as given under the library's name for it (or left out where it is None or the library's own default), "
     "with nothing else said and nothing the library does not know, and the data goes through as it is. For every history of saves (new or appended), overwrites and loads over several paths or tables, directly or through the driver's to./from_., in csv, parquet, pickle, json, feather, orc, excel, stata, xml, html, sql, avro, spreadsheet, database, npy, yaml and text or byte files with any encoding: "
     "a load gives exactly what was saved there last (with everything appended since), a path never written fails, no save touches another path, and the metadata states the true path, size, rows and columns.",
     ["inputs", "histories"], "all arguments of 47 adapters; all histories of saves and loads in 27 formats, tables with missing cells and awkward text",
     "The adapters have 573 arguments in any combination of given, falsy and default; tests exercise a few of them per class.",
     ["hamilton/plugins/pandas_extensions.py", "hamilton/plugins/polars_post_1_0_0_extensions.py", "hamilton/plugins/polars_lazyframe_extensions.py", "hamilton/io/default_data_loaders.py", "hamilton/io/utils.py", "hamilton/plugins/yaml_extensions.py", "hamilton/plugins/numpy_extensions.py", "hamilton/plugins/matplotlib_extensions.py"],
     [("pandas", "plugins/pandas_extensions.py"), ("polars", "plugins/polars_post_1_0_0_extensions.py"), ("lazy", "plugins/polars_lazyframe_extensions.py"), ("files", "io/default_data_loaders.py"), ("metadata", "io/utils.py:get_file_and_dataframe_metadata")],
     M, "Shipped.tla says when a call is faithful to the arguments asked for and what a store of files holds; ShippedMC checks that a call is faithful exactly if the library then acts on what was asked, that dropping or changing any argument shows, and that loads give the last save." + ASSUME)
prop("C27", "The command line builds, versions, diffs and validates what is in the files",
     "For every history of edits and commits of a dataflow's files, configuration from a json or python context file, and working directory inside the git repository: `version` lists exactly the nodes the files make under that configuration; two function nodes have the same version exactly if their functions' code and decorators are the same, "
     "comments, docstrings, layout, the order of functions and the file they are in notwithstanding, and the dataflow's version changes with that of its nodes; `diff` against any earlier commit names exactly the nodes added, removed and edited since, each with its function, is empty on a clean tree, and its picture shows exactly those nodes marked; "
     "`validate` accepts a context exactly if the outputs it asks for exist and the inputs they need are given; the commands and the application's json output agree.",
     ["histories", "programs"], "all histories of edits and commits over generated modules (plain, parameterised, field-extracting, conditional functions in two files), references, contexts and working directories",
     "Versions must tell apart every two codes and equate every two spellings; differences depend on the whole history.",
     ["hamilton/cli", "hamilton/graph_types.py"],
     [("versions", "graph_types.py:hash_source_code"), ("commands", "cli/commands.py"), ("difference", "cli/logic.py:diff_versions"), ("git", "cli/logic.py:load_modules_from_git"), ("picture", "cli/logic.py:visualize_diff")],
     M, "Versions.tla says which nodes a snapshot makes, what their versions may depend on and what a difference is; VersionsMC checks over all histories that a clean tree has no difference, that differences partition the nodes and mirror each other, and that no difference means equal versions." + ASSUME)
prop("C28", "Running on Dask or Ray means the same as running locally",
     "For every dataflow, request, set of failing functions and order in which a cluster runs what it is sent: with DaskGraphAdapter (delayed or not), RayGraphAdapter, RayWorkflowGraphAdapter, DaskExecutor or RayTaskExecutor (every grouping, parallel blocks included) the outputs are those of local execution, every needed function is called exactly once, with the values and not references, nothing else is called, "
     "overrides and inputs take part as they do locally, and a function's error is the request's error; two nodes never share a result because they come from one function; node hooks run once around each call with its values; each function gets exactly the ray options it was decorated with; a cluster connection the executor opened is closed again, and one it did not open is left alone.",
     ["schedules", "programs", "inputs"], "all dataflows, requests, failures, orders of execution on the cluster",
     "The plugins replace values by references and calls by shipped work; what arrives depends on the cluster's order and on how work is identified.",
     ["hamilton/plugins/h_dask.py", "hamilton/plugins/h_ray.py", "hamilton/execution/executors.py", "hamilton/graph.py"],
     [("dask delayed", "plugins/h_dask.py:DaskGraphAdapter.execute_node"), ("dask tasks", "plugins/h_dask.py:DaskExecutor"), ("ray", "plugins/h_ray.py:RayGraphAdapter"), ("ray tasks", "plugins/h_ray.py:RayTaskExecutor"), ("options", "plugins/h_ray.py:parse_ray_remote_options_from_tags")],
     M, "Cluster.tla is a cluster that runs sent work in any order; ClusterMC checks over all small programs that it refines Exec.tla (the meaning of local execution) and always answers." + ASSUME)
