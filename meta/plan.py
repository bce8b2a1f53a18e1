PLAN = {
"C01": """`Graph.tla` denotes a set of modules and a configuration (definitions in force, outside inputs, defaults, tags, three-valued type compatibility:
must accept / must refuse / open).  `SessMC` checks the laws of the denotation (LastWins, UpDownDual, UsedWithinUp) over all builds of the bounded universe.
Conformance, mix `build`: random source modules (private and imported functions, helper modules whose names contain one another, overrides in later modules, configured names, defaults,
tags, unions/optionals/generics, self- and mutual dependencies) are written to disk, imported and built; the listed variables with all attributes, the refusal or acceptance of the build and a few requests are judged by `SessTrace`.""",
"C14": """Same specification, mix `query`: on a built driver the recorder asks for tag filters (missing, single, several values, any), upstream, downstream, paths, cycles, exports of requests
with inputs and overrides, and drawings (parsed from the graphviz source: node and edge sets); each answer must equal the set the specification defines (Listed, Up, Down, Path, Cyclic, Used).""",
"C12": """`DQ.tla`: values (scaled numbers, NaN, infinities, strings, series, frames), the meaning of each check (yes/no/validator fails/open where floating point could decide either way), the nodes each decorator layer adds
(targets, _raw, validator names), needed set with overrides and what is blocked by a failure.  `DQMC`: nodes computed in any order; CheckedBeforeUse, FailureIsBad, EndsRight, WarnTransparent, RawUnchecked, termination, and laws of the single checks as ASSUMEs
(widening, NoNan = fraction 0, range bounds mean, ...).  Conformance, mix `dq`: random functions x decorators x border values x requests x overrides, in-memory, task-based (also inside parallel blocks, with threads) and async; calls, arguments by identity,
validator calls, warnings, errors, tags and changes to the data recorded; `DQTrace` decides.""",
"C15": """`IO.tla`: registries of adapters (which one applies), arguments from literals or nodes, declarations with loaders and savers, materializers, the graph they give, and the call each adapter must receive (values are terms, so a wrong source shows).
`IOMC`: all small programs x batches of materializers x inputs: SaversTransparent, SaverSavesTheResult, LoaderReplaces, OrderFree, Specific.  Conformance, mix `io`: random registries, programs and sessions of execute/materialize/validate on one driver, with name coincidences between
arguments, sources and nodes; calls, metadata, results, refusals and hooks recorded; `IOTrace` decides.""",
"C21": """`Track.tla`/`TrackMC`: producers, queue, batches, worker, stop and drain, a backend that refuses; Once, NothingInvented, NoLossAtStop, FinalState, NeverBack and (liveness) Delivered under all interleavings.
Conformance against a loopback backend that records: the real client driven by random submissions, timings, refusals, dropped connections, pickling, stop and process exit (mix `track`), and tracked executions - plain, parallel, async, materialize - whose
function calls are recorded with times (mix `trackrun`); `TrackTrace` decides both.""",
"C20": """`Session.tla`: builders (modules, configuration, flags, hooks, once-only settings) and drivers as snapshots; `SessMC` checks SnapshotStable and CopyIndependent as action properties over all operation sequences of the bounded length.
Conformance, mix `session`: random sequences over several builders, copies, drivers, driver clones (sync and async), caller-owned dicts and lists that are compared afterwards; after each operation earlier drivers are asked again for
graph, results and adapters.""",
"C02": """Specified in `Dataflow.tla` (what a program and a request mean: needed set, overrides, defaults, missing/unknown/clashing names,
functional evaluation) and `Exec.tla` (state: values so far, functions called, failures; actions CallOk, CallFail, Return, Raise).
`ExecMC` checks over all programs of a bounded shape: ValuesRight, OnlyNeeded, OverridesNeverRun, DownstreamOfFailureNotRun,
ReturnedComplete, EventuallyAnswers.  Conformance: random programs (2-12 nodes, several modules, defaults, configuration that replaces
functions, falsy values, several requests per driver, failing functions), every call recorded with arguments; `ExecTrace` decides.
Oracle: the specification's own evaluation.  ~30 s quick.  Tests fix the graphs; here every recorded call is judged.""",
"C03": """Same specification, but the program is run by the task-based engine: each grouping strategy x executor (synchronous, thread pools,
scripted executor whose acceptance and completion order the scenario chooses).  Identity of meaning with C02 follows because both
engines are judged by the same denotation.""",
"C04": """`ParDen.tla` (denotation of programs with chained expand/collect blocks: one context per item, collect gets the list in
item order), `Par.tla`/`ParMC` (all interleavings of items; invariants), `ParTrace` judges recorded executions under scripted schedules, thread pools and
rejections, with 0..13 items, equal items, generators/lists, failing items, overrides inside blocks.""",
"C05": """`TaskSched.tla`: queue, states, in-flight set, executors that accept/reject, complete in any order, fail tasks or submissions;
safety (only ready tasks, once, only after acceptance, nothing after an observed failure, init/finalize bracket) and liveness
(all tasks finish => request finishes) checked by TLC.  The real scheduler runs against a scripted executor that follows enumerated decision prefixes and
then random decisions; `TaskTrace` judges every ask/submit/complete/init/finalize event.  Thread pools: limit respected and reached (rendezvous).""",
"C06": """`Life.tla`: per lane (thread/task) lifecycle automaton for graph, task and node hooks; `LifeTrace` judges recorded hook and function events of
random programs x adapter sets x engines (in-memory, task-based, async) with failing functions and failing hooks.""",
"C07": """Same denotation as C02; programs mix `async def` and plain functions with random awaits; concurrent requests on one driver are
recorded separately (context variable) and each judged by `ExecTrace`; independent coroutines meet in a rendezvous that only succeeds if they overlap.""",
"C13": """`Dataflow.tla` defines Missing/Unknown/Clash/BadTyped and hence Rejected; scenarios inject exactly one or several such defects (or none)
and both `validate_execution` and `execute` are recorded; `ExecTrace` demands: rejected iff Rejected(P), and nothing called when rejected.""",
"C08": """`Cache.tla`: state = metadata map (key -> data version), result store (data version -> value), code versions, edits, and a run
that walks the needed nodes: for each node the key (code version, argument data versions), the behaviour, and hence Hit/Execute/Recompute.
`CacheMC` checks over all histories of MaxRuns runs with edits/inputs/behaviours/faults that the returned values equal the
uncached denotation (Transparent).  Conformance: histories of 2-7 steps (run, edit body, edit cosmetics, change default/config/input/override,
behaviours through driver or @cache, delete, new process-like driver, engines in-memory/task-based/parallel, file/sqlite/in-memory stores); every executed
function, returned value, log line and behaviour is an event; `CacheTrace` decides.""",
"C09": """Same specification and recorder as C08, but judged by the reuse clauses: executed-although-cached, executed-twice,
not-executed-although-behaviour-demands, wrong-behaviour-resolved, log-wrong-*, result-(not-)stored.""",
"C10": """Fault actions of `Cache.tla` (lose/corrupt/tear metadata or results, entry vanishing between exists and get, crash at any
store operation, concurrent processes).  Real side: forked processes that exit at the k-th store operation (before, in the middle of a write, after), byte-level
damage of result files, concurrent forked runs on one directory; then a healthy run must return the right values and raise nothing.""",
"C11": """`Stores.tla`: reference map semantics of metadata and result stores with handles; `StoresMC` checks it against the
interchangeability invariants; random operation sequences (2500 quick) on all real stores through several handles, threads, reopen, persist_to/load_from are
validated by `StoresTrace`.""",
"C16": """`Modifiers.tla`: the denotation of decorated declarations is a map node name -> definition (call of a user function with every parameter bound to
a source, a literal, a list/dict of those; or field/copy/constant), then plain evaluation.  `ModMC` checks the laws over all declarations of bounded shape:
ParamIsApplication, PipeIsFold, ConfigSelects, SubdagIsInlining.  Conformance: random decorated modules (mix `param`) are rendered as Python source
with the public decorators, built and run by the real driver; the offered nodes, every user function call with its arguments and every result are judged by `ModTrace`
(wrong-node-set, wrong-argument-value, call-not-owed, owed-call-missing, wrong-result-value, missing-field-not-reported, valid-module-rejected, ...).""",
"C17": """Same specification and recorder, mix `pipe`: pipe_input/pipe_output/mutate (own and shared mutators, apply_to), steps derived from
one step object, name clashes between step parameters and chained names, conditions, targets, namespaces, does with permuting argument maps.""",
"C18": """Same, mix `cond`: variants of one name under when/when_not/when_in/when_not_in (stacked, several keys, None), name= and suffixes, @resolve
with configuration defaults, conditional steps; every module is built under several configurations in one process.""",
"C19": """Same, mix `subdag`: nested subdags and parameterised subdags with literal/source inputs, shared and overriding inputs and configuration, external inputs,
config variants, parameterisations and pipes inside.""",
"C22": """`Adapters.tla`: the denotation of a run in which functions raise (values, calls, errors, executions), plainly and under the adapter.  `AdaptersMC` checks the laws over all
lines of functions and one parallel block, failure patterns and settings.  Conformance: random dataflows (defaults, overrides, equal constants, markers, parallel blocks with
generators and lists, in-memory, task-based, threads), 1-3 runs, also with another dataflow run on the same adapter in between; results, calls and errors judged by `AdaptersTrace`.""",
"C23": """Same denotation for observers: each attached adapter's messages/spans/events are recorded and compared with the executions the run has (bag of begins and ends, statuses, nesting).
Type checking: `TypeCheck.tla` defines conformance of values to types; `TypeMC` checks its laws; random nested types and (nearly) conforming values run through real functions, and
`TypeTrace` demands a TypeError exactly for non-conforming arguments/results and that nothing is called or used afterwards.  Not claimed: NewType, TypeVar, TypedDict, generators' items.""",
"C24": """`Cols.tla` is a denotational model of frames (sequences of named columns), column functions and decorated functions; `ColsMC` checks its laws over all small programs.  Generated programs
(name coincidences between columns, functions, parameters, outer nodes; configurations; chains; several drivers and runs on one code) run through the real decorators in pandas, polars and lazy polars;
`ColsTrace` compares the frame each decorated function got, the functions called, the original frame afterwards, and refusals.  Not claimed: `validate_dataframe` (accepts any type), unknown names in select, neither of columns_to_pass and on_input, spark.""",
"C25": """`Results.tla` says which tables/matrices/dictionaries a list of outputs makes and when none can be made; `ResultsMC` checks uniqueness, that every value is there, and independence of request order.
Random outputs (plain, arrays, series over six kinds of index, frames, empty ones, missing cells, clashing dotted names) are requested in random orders, some as inputs or overrides, through seven engine variants and six builders;
`ResultsTrace` judges the object that came out.  Left open: joining on repeated labels and how pandas orders mixed label types; numpy scalar types in NumpyMatrixResult; polars frames of mixed plain values and columns.""",
"C26": """`Shipped.tla` defines faithful calls (fields, library names, library defaults taken from the real signatures) and the store of files; `ShippedMC` checks the two halves against what the library acts on and against
histories.  Conformance: every adapter of the catalogue `vp/shipped.json` is built with random arguments while the library function is replaced by a recorder, and used once or twice; random histories of saves and loads run against real files in a scratch directory and a scratch SQLite database.
`ShippedTrace` judges both.  Not claimed: arguments the installed library no longer has or ignores (use_nullable_dtypes, convert_strl, polars include_header/sample_size, scan_* columns), order of keys in yaml, missing cells in spreadsheets, html encoding, spark/ray/dask/ibis/geopandas/model-file adapters.""",
"C27": """`Versions.tla` defines nodes, versions and differences of snapshots; `VersionsMC` checks the laws over all short histories.  Conformance: random histories of edits (code, comments, docstrings, layout, tags,
decorators, order, moves between files) and commits in a scratch git repository, with version/diff/validate called through the commands and through the typer application; `VersionsTrace` judges every answer and picture against the snapshots.
Left open: versions of inputs and configuration (they have no code; the code uses a consumer's), nodes that are inputs in one snapshot and functions in the other, files that do not exist at the reference, asking for an input that is not given.""",
"C28": """`Cluster.tla`: sending, running in any order, gathering; `ClusterMC` checks that it refines `Exec.tla`.  Conformance: the plugins run random programs (parameterised twins, options, hooks) and parallel blocks on a stand-in cluster that implements
the client side of ray (remote/options/bind/get/init) and of a dask client (submit): work and values are shipped by cloudpickle, references among top-level arguments are awaited, ready work runs in random order whenever somebody looks; dask's own delayed and schedulers (synchronous, threads) are the real ones.
`ClusterTrace` (ExecTrace plus hooks, options, connections) and `ParTrace` judge.  A real ray or dask cluster is not started: processes and sockets would add nothing hamilton decides.""",
}
CAUGHT = {}
NOTES = ""
