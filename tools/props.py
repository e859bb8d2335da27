"""Source of properties.jsonl (python3 tools/props.py > properties.jsonl)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


p("C01", "A second run of a model starts from the same state as the first",
  "Running a loaded model again gives the same results as the first run: every piece of state that a node, parameter or "
  "recorder changes while the model runs and that later influences a flow, volume, value or result is put back to its "
  "configured initial value when the model is reset. Resetting derives that value from configuration only, never from what "
  "the previous run left behind.",
  ["histories", "configurations"],
  "Every node, parameter and recorder class, every field it changes during a run, and every sequence of runs of one model.",
  "Tests build a fresh model per case and rarely call run() twice; state leaking from one run to the next needs a second run "
  "of that particular component in that particular configuration.",
  ["pywr/_core.pyx", "pywr/nodes.py", "pywr/model.py", "pywr/parameters/", "pywr/recorders/", "pywr/domains/groundwater.py"],
  [("reset chain", "pywr/model.py Model.reset"), ("component reset", "pywr/_component.pyx Component.reset and every override"),
   ("storage reset", "pywr/_core.pyx Storage.reset")],
  [("_volume/_flow/_prev_flow", "per-scenario run state of nodes", "pywr/_core.pyx")],
  ["Model.run() results of consecutive runs"])

p("C02", "Scenario combinations are simulated independently",
  "When several scenario combinations are simulated together, each combination's flows, volumes, parameter values and recorded "
  "results are exactly those it would have if simulated alone: per-combination arrays are only ever addressed by the position of "
  "that combination, per-ensemble data by the combination's member of the named scenario, and per-time-step data by the time step. "
  "No value computed for one combination is carried over to the next one or averaged into it.",
  ["inputs", "configurations"],
  "Every component class, every per-scenario array access in a run and every set (or selected subset) of scenario combinations.",
  "Tests mostly use one scenario or a full product in which the position and the ensemble member coincide; mixing the index "
  "spaces or carrying a scalar shows only with several scenarios of different size, user combinations or slices.",
  ["pywr/_core.pyx", "pywr/parameters/", "pywr/recorders/", "pywr/nodes.py", "pywr/solvers/"],
  [("index spaces", "pywr/_core.pyx ScenarioIndex (global_id, indices)"),
   ("scenario order", "pywr/_core.pyx ScenarioCollection.get_scenario_index")])

p("C03", "Flows, volumes and durations are never mixed up",
  "Quantities of different dimension are converted before they are combined: a volume changes by flow multiplied by the length "
  "of the time step in days, a volume divided by that length is used where a flow limit is needed, and flows are never compared "
  "with, added to or stored as volumes, nor proportions as absolute amounts. Results therefore do not depend on the time step "
  "being one day.",
  ["inputs", "configurations"],
  "Every arithmetic operation, comparison and store on flow, volume, proportion or duration quantities, for every time-step length.",
  "Nearly all tests use a one-day time step, for which a missing or repeated conversion is invisible.",
  ["pywr/_core.pyx", "pywr/parameters/", "pywr/recorders/", "pywr/solvers/", "pywr/nodes.py"],
  [("storage update", "pywr/_core.pyx Storage.after"), ("solver bounds", "pywr/solvers/cython_glpk.pyx"),
   ("licences", "pywr/parameters/licenses.py"), ("volume recorders", "pywr/recorders/_recorders.pyx")])

p("C04", "Everything a component reads in a step is evaluated before it",
  "A parameter, node or recorder that takes its value from another parameter or recorder registers that component as a "
  "dependency, so that within every time step values are computed before they are used and never taken from the previous step. "
  "Replacing a dependency removes the old one and registers the new one, for every way of setting it.",
  ["configurations", "histories"],
  "Every component class and every other component it queries while the model runs; every order in which components are created.",
  "With most creation orders the evaluation order happens to be right without the dependency being registered; the tests fix one order.",
  ["pywr/_component.pyx", "pywr/parameters/", "pywr/recorders/", "pywr/_core.pyx", "pywr/model.py"],
  [("dependency links", "pywr/_component.pyx Component.children/parents"), ("ordering", "pywr/model.py Model.flatten_component_tree")])

p("C05", "Each time step runs its phases completely and in order",
  "In every time step all components are prepared before the allocation is solved, the solution is distributed to the nodes "
  "before any component records it, and every component takes part in every phase, dependencies first. A run starts from a "
  "reset (or freshly set up) model and always ends with the finishing phase, also when a step raises; in coupled models every "
  "sub-model takes part in every phase.",
  ["schedules", "fault_sequences"],
  "Every path through stepping and running single and coupled models, including the exceptional ones.",
  "Tests exercise the successful path with few components; a phase skipped or reordered for one kind of component or on an "
  "exceptional path shows only in particular models.",
  ["pywr/model.py", "pywr/_model.pyx", "pywr/core.py"],
  [("step", "pywr/model.py Model._step, before, after"), ("run", "pywr/model.py Model.run"),
   ("coupled models", "pywr/model.py MultiModel")])

p("C06", "Previous flow is always the flow reported for the step before",
  "For every node the previous flow offered to parameters in a step equals the flow that node reported at the end of the step "
  "before, and is zero in the first step; this includes aggregated, virtual and compound nodes, whose flow is derived from "
  "other nodes. A node's own step-end update never leaves its flow history behind or ahead by a step.",
  ["histories", "configurations"],
  "Every node class and every step of every run.",
  "Tests look at flows through recorders; previous flow of derived nodes is read by almost none of them.",
  ["pywr/_core.pyx", "pywr/nodes.py", "pywr/domains/"],
  [("flow history", "pywr/_core.pyx AbstractNode.after"), ("derived flows", "pywr/nodes.py PiecewiseLink.after and siblings")])

p("C07", "Changing the structure of a model always takes effect in the next step",
  "Whenever a model is changed in a way the prepared allocation problem depends on - nodes or connections added or removed, "
  "members, factors or weights of virtual and aggregated nodes, conversion factors, scenarios - the next step or run works on "
  "the changed model rather than on what was prepared before. No such change is silently ignored.",
  ["histories"],
  "Every public attribute or method that changes something the solver setup captured, at any point of a model's life.",
  "Tests change models before the first run; the stale state only exists when a change follows a run.",
  ["pywr/model.py", "pywr/_core.pyx", "pywr/nodes.py", "pywr/core.py", "pywr/solvers/"],
  [("dirty flag", "pywr/model.py Model.dirty"), ("captured structure", "pywr/solvers/cython_glpk.pyx setup")])

p("C08", "All solvers impose the same limits, costs and balances",
  "Whichever solver is used, the allocation problem has the same meaning: every limit on a node's flow, a storage's usable "
  "volume and available space, and a virtual or aggregated node applies as lower limit where it is a minimum and as upper limit "
  "where it is a maximum, costs enter once per unit of flow with storage costs of the right sign, and every scenario's problem "
  "is refreshed from the current values of that scenario before it is solved.",
  ["configurations", "inputs"],
  "Every bound, coefficient and cost that each solver writes, for every node kind, scenario and time step.",
  "The test networks reach few combinations of node kind, parameter kind and solver, and many of them assert only an objective value.",
  ["pywr/solvers/cython_glpk.pyx", "pywr/solvers/cython_lpsolve.pyx", "pywr/solvers/__init__.py"],
  [("GLPK route solver", "pywr/solvers/cython_glpk.pyx CythonGLPKSolver"),
   ("GLPK edge solver", "pywr/solvers/cython_glpk.pyx CythonGLPKEdgeSolver"),
   ("lp_solve solver", "pywr/solvers/cython_lpsolve.pyx CythonLPSolveSolver")])

p("C09", "A failed allocation is never used",
  "If the allocation problem of any scenario cannot be solved to optimality the run stops with an error that reaches the caller; "
  "no flow from a failed or unchecked solve is ever distributed to the nodes.",
  ["fault_sequences", "inputs"],
  "Every solver call on every path, for every outcome it can report.",
  "Infeasible or failing solves are rare in the tests, and none covers each outcome of each solver.",
  ["pywr/solvers/cython_glpk.pyx", "pywr/solvers/cython_lpsolve.pyx", "pywr/_model.pyx"],
  [("status handling", "pywr/solvers/cython_glpk.pyx solve"), ("error propagation", "pywr/model.py Model.run")])

p("C10", "Compiled code stays inside the memory it allocated",
  "Every native buffer is allocated with the size of the elements written into it, released exactly once, and never used before "
  "allocation or after release; indices written to it stay inside the allocated length for every model. Assertions about library "
  "return values and compiler options do not switch these guarantees off.",
  ["inputs", "configurations"],
  "Every native allocation, release and indexed access in the compiled modules, for every size of network.",
  "A heap overflow or leak does not fail a test unless the allocator happens to notice.",
  ["pywr/solvers/cython_glpk.pyx", "pywr/solvers/cython_lpsolve.pyx", "pywr/_core.pyx"],
  [("row and column buffers", "pywr/solvers/cython_glpk.pyx"), ("buffers", "pywr/solvers/cython_lpsolve.pyx")])

p("C11", "Every key of a model document is honoured or rejected",
  "When a model is loaded from a document, every key a component accepts reaches the attribute of the same meaning on the "
  "constructed component, references to other components and tables are resolved, and what is left over is passed on or "
  "raises an error; no accepted key is dropped. Every documented component type can be named in a document.",
  ["inputs", "programs"],
  "Every component class with a loader, every key it takes from a document, and every document using it.",
  "Tests load a few documents per component with few of the optional keys, and a dropped optional key changes nothing they check.",
  ["pywr/model.py", "pywr/nodes.py", "pywr/parameters/", "pywr/recorders/", "pywr/dataframe_tools.py", "pywr/domains/"],
  [("component loaders", "load() of parameters and recorders"), ("node loaders", "pywr/nodes.py Loadable"),
   ("registries", "pywr/parameters/_parameters.pyx load_parameter, pywr/recorders/_recorders.pyx load_recorder")])

p("C12", "Relative file names and file checks work the same everywhere",
  "A relative file name in a model document is always taken relative to that document, for every component and table that "
  "reads or writes a file. A checksum given with a file is verified before any of the file's content is used, and a mismatch "
  "or an unknown algorithm is an error.",
  ["inputs", "configurations"],
  "Every place that opens a file named in a document, and every document location and working directory.",
  "Tests are run from one directory with a few components; a missing normalisation works there by accident.",
  ["pywr/dataframe_tools.py", "pywr/hashes.py", "pywr/model.py", "pywr/parameters/", "pywr/recorders/"],
  [("path normalisation", "pywr/model.py Model.path"), ("checksums", "pywr/hashes.py check_hash")])

p("C13", "Named options select what their name says, and unknown names fail",
  "For every option that is chosen by name - aggregation function, comparison, objective, day-of-year kind, interpolation, "
  "loss type and the like - each accepted name selects the behaviour it names, in every place that implements the option, and "
  "any other name raises an error instead of silently falling through.",
  ["inputs", "configurations"],
  "Every named option and every implementation of it, scalar or vectorised, in parameters, recorders and nodes.",
  "Tests parametrise some of the names for some of the implementations.",
  ["pywr/parameters/_parameters.pyx", "pywr/recorders/_recorders.pyx", "pywr/parameters/_thresholds.pyx",
   "pywr/recorders/_thresholds.pyx", "pywr/recorders/events.py", "pywr/recorders/recorders.py"],
  [("aggregation", "pywr/recorders/_recorders.pyx Aggregator"), ("aggregated parameters", "pywr/parameters/_parameters.pyx"),
   ("predicates", "pywr/parameters/_thresholds.pyx")])

p("C14", "The optimisation view of a model is consistent",
  "Variables, their lower and upper bounds and their current values, reported to an optimisation algorithm, agree in number and "
  "order for every component, and setting the variables followed by reading them gives the same values back. Objectives keep "
  "their direction (maximised ones are negated for minimisers) and a constraint is reported as violated exactly when its "
  "recorded value is outside its bounds.",
  ["inputs", "configurations"],
  "Every component offering variables, every recorder used as objective or constraint, and every optimiser wrapper.",
  "Tests cover a handful of parameter types with one variable each; order and length mismatches need several.",
  ["pywr/_component.pyx", "pywr/parameters/", "pywr/optimisation/", "pywr/recorders/_recorders.pyx", "pywr/nodes.py"],
  [("variable interface", "pywr/parameters/_parameters.pyx set_double_variables and siblings"),
   ("objective direction", "pywr/optimisation/"), ("constraints", "pywr/recorders/_recorders.pyx Recorder")])

p("C15", "Errors are never swallowed",
  "An error raised while a model is loaded, set up, run or finished reaches the caller: nothing catches errors it does not "
  "specifically handle and carries on, no clean-up replaces or discards an error in flight, and every compiled function that "
  "user code can override or that can fail passes exceptions on to its caller.",
  ["fault_sequences", "inputs"],
  "Every exception handler, clean-up block and compiled function signature.",
  "Tests only raise errors in the places they know about.",
  ["pywr/"],
  [("exception signatures", "pywr/_component.pxd and the other .pxd files"), ("handlers", "pywr/model.py, pywr/dataframe_tools.py")])

p("C16", "Output files are complete and closed for every run",
  "Recorders that write files open them for each run, write every recorded step of every scenario, and flush and close them when "
  "the run finishes, so that a later run starts a new complete file and nothing remains open or half written; a resource opened "
  "by a loader is closed again.",
  ["histories", "crash_points"],
  "Every component that opens a file, over every sequence of set-up, run, failed run and reset.",
  "Tests write one file in one successful run each.",
  ["pywr/recorders/recorders.py", "pywr/recorders/_tables_recorders.pyx", "pywr/recorders/_recorders.pyx", "pywr/h5tools.py", "pywr/dataframe_tools.py"],
  [("CSV output", "pywr/recorders/recorders.py CSVRecorder"), ("HDF5 output", "pywr/recorders/recorders.py TablesRecorder")])

p("C17", "The last value assigned to a node attribute is the one used",
  "Limits, costs, levels and similar node attributes accept a constant or a parameter; whichever was assigned last is what "
  "every query - for one scenario or all scenarios at once - returns, and what reading the attribute gives back. The query for all "
  "scenarios always agrees with the query for each of them.",
  ["histories", "inputs"],
  "Every such attribute on every node class, and every sequence of assignments.",
  "Tests assign each attribute once.",
  ["pywr/_core.pyx", "pywr/nodes.py"],
  [("attribute pairs", "pywr/_core.pyx Node, Storage, AggregatedNode properties"), ("vector queries", "get_all_* in pywr/_core.pyx")])

p("C18", "Profiles and calendars look up the right day, week or month",
  "A profile is looked up with the calendar position it is defined on - month for monthly, week for weekly, day of the year with "
  "29 February at a fixed place for daily profiles - and every lookup stays inside the profile for every date of every year, "
  "leap or not. Date comparisons order month before day.",
  ["inputs"],
  "Every calendar lookup and every date, including leap days and the last week of the year.",
  "Tests use short runs in one or two years.",
  ["pywr/parameters/_parameters.pyx", "pywr/_core.pyx", "pywr/parameters/licenses.py", "pywr/nodes.py", "pywr/recorders/_thresholds.pyx"],
  [("calendar positions", "pywr/_core.pyx Timestep"), ("profiles", "pywr/parameters/_parameters.pyx")])

p("C19", "Node balances have the right sign and weight",
  "Water added to a storage raises its volume and water taken from it lowers it, by exactly the flow allocated; licences and "
  "virtual storages fall by the weighted flow of their members, and aggregated nodes report the weighted sum of the flows of all "
  "their members in the same step. Each allocated flow is credited to every node on its path exactly once.",
  ["inputs", "configurations"],
  "Every place that distributes allocated flows or updates a volume, and every network.",
  "Tests assert a few flows and volumes in small networks.",
  ["pywr/_core.pyx", "pywr/nodes.py", "pywr/solvers/cython_glpk.pyx", "pywr/solvers/cython_lpsolve.pyx"],
  [("storage balance", "pywr/_core.pyx Storage, StorageInput, StorageOutput, VirtualStorage, AggregatedNode"),
   ("distribution of flows", "pywr/solvers/*.pyx")])

p("C20", "Recorded results cover every step and scenario and use their aggregation",
  "A recorder's results contain the value of every step of every scenario at the position of that step and scenario, its values "
  "per scenario use its time aggregation, and its single result aggregates exactly those per-scenario values with its scenario "
  "aggregation and settings; both settings can be changed without affecting the other.",
  ["inputs", "configurations"],
  "Every recorder class, its settings and every set of scenarios.",
  "Tests check default aggregations in small runs.",
  ["pywr/recorders/"],
  [("aggregation", "pywr/recorders/_recorders.pyx Recorder.aggregated_value, values"), ("storage of steps", "pywr/recorders/_recorders.pyx after()")])

p("C21", "A parameter's value is the documented function of its inputs",
  "In every time step and for every scenario combination the value (or index) of a parameter is the documented function of its own "
  "settings and of the current values of what it refers to: constants, profiles, scaling, offset, sums, products, minima and maxima, "
  "control curves, thresholds, interpolation, polynomials, delays, rolling means, licences, hydropower targets, deficits and discount "
  "factors. Settings are used as given, every option has its documented default, and no input or term is left out, "
  "used twice or used in the wrong place.",
  ["inputs", "configurations"],
  "Every parameter class, every combination of its settings, every value of its inputs, every step and scenario.",
  "Tests evaluate each parameter for a few values of a few settings; a wrong branch, boundary or term shows only for others.",
  ["pywr/parameters/_parameters.pyx", "pywr/parameters/_control_curves.pyx", "pywr/parameters/_thresholds.pyx",
   "pywr/parameters/_polynomial.pyx", "pywr/parameters/_hydropower.pyx", "pywr/parameters/parameters.py",
   "pywr/parameters/licenses.py", "pywr/parameters/control_curves.py", "pywr/parameters/thresholds.py"],
  [("value functions", "value(), index(), calc_values() of every parameter class"), ("state between steps", "after(), before() of parameters")])

p("C22", "A statistic computes what it is named after",
  "Every recorder that reports a statistic reports the one it is named after: totals, means, minima, counts, frequencies, deficits, "
  "supplied and curtailed ratios, duration curves and their deviations, goodness-of-fit measures against observations, events and "
  "their durations and statistics, annual totals and counts, hydropower and energy. It is computed from all and only the steps it "
  "applies to, for each scenario by itself, with the boundary (first and last step, year or event still open at the end) included.",
  ["inputs", "histories"],
  "Every statistic recorder, every series of flows, volumes and values, every run length and year boundary.",
  "Tests compare a few statistics for one short series each, usually with one scenario and a one-day step.",
  ["pywr/recorders/_recorders.pyx", "pywr/recorders/_thresholds.pyx", "pywr/recorders/_hydropower.pyx", "pywr/recorders/calibration.py",
   "pywr/recorders/events.py", "pywr/recorders/kde.py", "pywr/recorders/recorders.py"],
  [("accumulation", "after() and finish() of recorders"), ("calibration statistics", "pywr/recorders/calibration.py"),
   ("events", "pywr/recorders/events.py")])

p("C23", "A run covers exactly the requested period",
  "A run takes one step for every period of the requested step length from the start date up to and including the one that contains "
  "the end date, in order, each numbered from zero and with its own length in days - whether the length is given in days, as a time "
  "delta, or as a named frequency with steps of different length - and then stops. Resetting starts from the first step again, and a "
  "changed start, end or step length takes effect in the next run.",
  ["inputs", "histories"],
  "Every start, end and step length, and every sequence of changes, resets and runs.",
  "Tests use a few periods, mostly with steps of one day that divide the period evenly.",
  ["pywr/timestepper.py", "pywr/_core.pyx", "pywr/_model.pyx"],
  [("stepping", "pywr/timestepper.py Timestepper.next, reset, setup"), ("time step", "pywr/_core.pyx Timestep")])

p("C25", "The network is connected exactly as it was asked to be",
  "Connecting two nodes, by object or by name and with or without slots, adds exactly the link asked for, between the sub-nodes the "
  "slots stand for; a connection between models, to a missing slot or into a node that takes none is refused. Disconnecting "
  "removes that link and no other. A compound node (storage, piecewise link, multi-split link, river split, gauge, break, "
  "delay and loss links) creates the inner nodes, inner links, limits and costs its settings describe, and every connection made to "
  "or from it reaches the inner node meant for that direction and slot.",
  ["configurations", "histories"],
  "Every node class, every slot, every setting of a compound node, and every sequence of connecting and disconnecting.",
  "Tests build a handful of networks; a wrong slot, a link to the wrong inner node or a link too many in another combination of "
  "node types is not seen.",
  ["pywr/nodes.py", "pywr/domains/river.py", "pywr/domains/groundwater.py"],
  [("connecting", "pywr/nodes.py Connectable.connect, disconnect, iter_slots"),
   ("compound nodes", "constructors of Storage, PiecewiseLink, MultiSplitLink, BreakLink, DelayNode, LossLink"),
   ("river nodes", "pywr/domains/river.py RiverSplit, RiverSplitWithGauge, RiverGauge, Reservoir, Catchment")])

p("C24", "A name means the component it was given to, whatever the order of definition",
  "Looking up a node, parameter, recorder or other component by name returns the component that carries that name, the same one a "
  "walk over the collection meets, and a name that no component carries is an error, not another component. Two nodes of a model never "
  "share a name. A component that refers to another by name, in a document or from code, gets that component whether it "
  "is defined before or after the reference, and is loaded once. The components, parameters, recorders, variables, objectives and constraints of a "
  "model each list exactly the components of that kind; an unregistered type is refused.",
  ["configurations", "inputs"],
  "Every set of components and names, every order of definition, includes and inline definitions.",
  "Tests load documents in which names are different and given in one order; hidden sub-nodes of the same name, or a reference to a "
  "component that is loaded later, is not sampled.",
  ["pywr/_model.pyx", "pywr/_component.pyx", "pywr/parameters/_parameters.pyx", "pywr/nodes.py"],
  [("look-up", "pywr/_model.pyx NodeIterator, NamedIterator"),
   ("naming", "pywr/_component.pyx Component.name, pywr/_core.pyx AbstractNode.name"),
   ("loading by reference", "load_parameter, load_recorder, Model.load_from_dict, Loadable.pre_load / finalise_load")])

p("C26", "A model that cannot mean anything is refused",
  "A setting, document or network that has no meaning in pywr is refused with an error before it can influence a result: numbers outside their range, "
  "missing or contradictory settings, components of the wrong kind, arrays of the wrong size, inconsistent scenarios or time steps, "
  "networks without a way from a source to a sink, components that depend on each other in a circle, files "
  "that do not match their hash. What has a meaning is never refused.",
  ["inputs", "configurations"],
  "Every function that refuses anything: the exact condition under which it does, for every input.",
  "A test of a refusal tries one bad and a few good values; the boundary between them, and conditions that involve two settings, are not decided by them.",
  ["pywr/_core.pyx", "pywr/_model.pyx", "pywr/nodes.py", "pywr/parameters", "pywr/recorders", "pywr/dataframe_tools.py"],
  [("graph checks", "pywr/_model.pyx Model.check_graph, find_all_routes, flatten_component_tree, check"),
   ("settings", "raise statements in setters, constructors, setup and load functions")])

p("C27", "Outside data is brought to the model's steps without being shifted or mixed",
  "A table or series read from a file or a document is read with the reader its kind asks for, the column, columns, index or indexes asked for are selected and nothing else, "
  "and a series is brought to the steps of the model over exactly the run: finer data are combined by the "
  "resampling function that was asked for, coarser data are repeated, and data that do not cover every step of the run or have a gap are refused.",
  ["inputs", "configurations"],
  "Every file kind, selection, frequency of the data and of the model, and every period.",
  "Tests use a few frequencies and complete data; each branch of the resampling depends on the pair of frequencies.",
  ["pywr/dataframe_tools.py", "pywr/parameters/_parameters.pyx"],
  [("reading", "pywr/dataframe_tools.py read_dataframe, load_dataframe; load_parameter_values"),
   ("resampling", "pywr/dataframe_tools.py align_and_resample_dataframe and its helpers")])

p("C28", "A run uses the solver and options asked for and reports what it did",
  "A model is solved by the solver it was given, else by the one the environment names, else by the default one, with the options it was given; an option from the environment is used only when it was not given, "
  "and a name that belongs to no solver is refused. Running sets up or resets the model, makes every step of the timestepper in order, finishes every component "
  "(also when a step fails), and reports the number of scenarios, time steps, the times, the speed, the solver's name, settings and statistics of that run.",
  ["configurations", "histories"],
  "Every combination of given options and environment, and every state of the model before the run.",
  "Tests run with one environment and look at one or two fields of the result.",
  ["pywr/_model.pyx", "pywr/solvers/__init__.py", "pywr/solvers/cython_glpk.pyx"],
  [("choice of the solver", "pywr/_model.pyx Model.__init__"),
   ("options", "pywr/solvers/__init__.py, constructors and settings of the solvers"),
   ("run and result", "pywr/_model.pyx Model.run, ModelResult")])

p("C29", "The bisection search returns the largest feasible value it tried",
  "A bisection run halves the range between the bounds of its parameter until it is no wider than the tolerance: the half above a feasible value and the half "
  "below an infeasible one is searched next. The model ends with the largest feasible value that was tried, run once "
  "more; when no value was feasible that is an error, or the lower end when asked for. Missing settings, a reversed range and a tolerance that is not positive are refused.",
  ["histories", "configurations"],
  "Every sequence of feasible and infeasible outcomes, every range and tolerance.",
  "Tests try one model, whose outcomes take one path through the search.",
  ["pywr/utils/bisect.py", "pywr/_model.pyx"],
  [("search", "pywr/utils/bisect.py BisectionSearchModel.run"), ("settings", "BisectionSearchModel.__init__, load_from_dict")])

p("C30", "Several models run together step by step, in order and on the same days",
  "A multi-model loads each of its models from its file or its data, relative to the folder of the document, with its own solver, and gives all of them the same period. "
  "Running makes each step in every model, before, solve and after, one model after the other in the order they were added, so that a model sees the "
  "current step of those before it. Models whose scenarios differ in size or combination, or whose dates differ, are refused; all models are set up when any of them needs it, and all are finished, also when a step fails.",
  ["configurations", "histories"],
  "Every number and order of models, every place of their files, every state before the run.",
  "Tests use two or three models in one folder and one run.",
  ["pywr/model.py"],
  [("loading", "pywr/model.py MultiModel.load_from_dict"), ("running", "MultiModel.run, _step, setup, _check_scenarios")])

for x in P:
    print(json.dumps(x, ensure_ascii=False))
