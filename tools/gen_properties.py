#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Scenario results do not depend on threads, schedule or companions",
  "For every scenario of a model, the per-time-step flows, volumes and parameter values and all recorded results are identical whether scenarios are stepped one after another or in parallel, for any number of worker threads and any interleaving of them. A scenario's results are also the same whichever other scenarios are simulated beside it.",
  ["schedules", "configurations", "histories"],
  "all interleavings of worker threads at every step, every thread count, every subset of scenarios",
  "The existing model tests run with one fixed setting on a handful of models and let the OS pick one interleaving; nothing compares runs across schedules, thread counts or scenario subsets.",
  ["pywr-core/src/network.rs", "pywr-core/src/models/simple.rs", "pywr-core/src/models/multi.rs", "pywr-core/src/scenario.rs"],
  [("disjoint per-scenario State, ParameterStates and solver, zipped by scenario index", "pywr-core/src/network.rs step_par"),
   ("dedicated rayon pool sized from solver settings", "pywr-core/src/models/simple.rs run_with_state")],
  ["ModelState per scenario after each step", "recorder results"])

p("C02", "Runs are reproducible: hash seeds, clocks and earlier runs have no effect",
  "Running the same model with the same solver settings again, from the same loaded model, from a fresh load or in another process, gives identical per-step results and byte-identical text output. Wall-clock readings and jumps, hash-map seeds, and how many runs happened before have no effect on any result.",
  ["schedules", "histories", "configurations"],
  "all hash seeds, all clock readings (including jumps), all sequences of earlier runs in the process",
  "A unit test sees one hash seed and one clock per process and almost always runs a model once; an order taken from a hash map or a clock-dependent branch changes results only now and then.",
  ["pywr-core/src/solvers/builder.rs", "pywr-core/src/network.rs", "pywr-core/src/models/simple.rs", "pywr-core/src/parameters/mod.rs", "pywr-schema/src/network.rs"],
  [("ordered vectors for nodes, edges, parameters, solver rows and columns", "pywr-core/src/solvers/builder.rs, pywr-core/src/network.rs"),
   ("all run state is created by setup, none is kept in the model", "pywr-core/src/models/simple.rs setup")],
  ["per-step state digests", "bytes of CSV output"])

p("C03", "A failure in any scenario fails the run cleanly and deterministically",
  "If solving or evaluating a parameter fails for any scenario at any time-step, the run ends with an error naming the failed time-step; it never panics, hangs or reports success, whether scenarios are run sequentially or in parallel. The results recorded for earlier time-steps are those of a failure-free run, and the same model can be run again afterwards with correct results.",
  ["fault_sequences", "schedules"],
  "a solver or parameter failure at any (scenario, time-step), any number of them, under any interleaving and thread count",
  "No existing test injects a solver failure at a chosen scenario and time-step; failing paths in the parallel stepping are not executed at all by the tests.",
  ["pywr-core/src/network.rs", "pywr-core/src/models/simple.rs", "pywr-core/src/models/multi.rs", "pywr-core/src/solvers/mod.rs"],
  [("error propagation from solver and parameters through step to run", "pywr-core/src/network.rs step, step_par, step_multi_scenario"),
   ("typed errors with the time-step attached", "pywr-core/src/models/simple.rs step")],
  ["Result of Model::step / Model::run", "memory recorder and state before the failure"])

p("C04", "Flows obey the network's constraints at every time-step",
  "After every time-step of every scenario, all flows are non-negative, inflow equals outflow at every link node, and every input, link, output and aggregated node's flow lies within its minimum and maximum for that time-step. Aggregated nodes' proportional, ratio and coefficient relations between their members hold, and no more than the allowed number of members of a mutual-exclusivity group carry flow.",
  ["histories", "schedules", "inputs"],
  "every time-step of every scenario of every run, for constraints that change over time and with the simulated state",
  "The tests compare a few recorded values of small models; they do not check conservation or bounds on every edge and step, nor with constraints that vary with state.",
  ["pywr-core/src/solvers/builder.rs", "pywr-core/src/solvers/highs/mod.rs", "pywr-core/src/solvers/microlp/mod.rs", "pywr-core/src/aggregated_node.rs", "pywr-core/src/node.rs", "pywr-core/src/edge.rs"],
  [("linear-program rows for mass balance, node bounds, aggregated nodes and factors; updated every step", "pywr-core/src/solvers/builder.rs"),
   ("flows written back from the solution to edges and nodes", "pywr-core/src/solvers/*/mod.rs, pywr-core/src/state")],
  ["flow of every edge and node in State after each step"])

p("C05", "Storage volumes account exactly for flows and stay within bounds",
  "A storage node's volume starts at its configured initial volume, and after every time-step equals the previous volume plus net inflow times the time-step's length, staying between its minimum and maximum volume. Proportional volume, and the total of a group of storages, always agree with these volumes.",
  ["histories", "configurations", "inputs"],
  "every history of steps, time-step lengths (hours to months), scenarios, resets by abandoned or repeated runs",
  "Accounting errors build up only over particular histories (full/empty transitions, sub-daily or irregular steps, changing bounds); tests look at short histories with daily steps.",
  ["pywr-core/src/state", "pywr-core/src/node.rs", "pywr-core/src/aggregated_storage_node.rs", "pywr-core/src/solvers/builder.rs", "pywr-core/src/timestep.rs"],
  [("volume update from flows times days, clamping to bounds", "pywr-core/src/state/storage.rs"),
   ("available volume limits given to the solver per step", "pywr-core/src/solvers/builder.rs"),
   ("initial volume computed at the first time-step", "pywr-core/src/node.rs before")],
  ["volume and proportional volume in State before and after each step"])

p("C06", "Virtual storage (licence) accounting follows its reset and window rules",
  "A virtual storage's volume starts at its initial volume and each active time-step falls by the sum over its nodes of factor times flow times the time-step's length, kept within its bounds and never letting its nodes take more than it holds. It is refilled exactly when its reset rule says so (never, on a day of the year, or every N months) to its configured reset level, is unaffected outside its active period, and with a rolling window recovers exactly the use that drops out of the window.",
  ["histories", "configurations"],
  "every history of use, reset rule and date, active period, window length, time-step length and scenario",
  "Resets, windows and inactive periods interact over long histories (leap years, several resets, windows longer than a period); each test samples one rule with one history.",
  ["pywr-core/src/virtual_storage.rs", "pywr-core/src/state", "pywr-core/src/timestep.rs", "pywr-schema/src/nodes/virtual_nodes"],
  [("reset decision, active period and window history", "pywr-core/src/virtual_storage.rs before"),
   ("flow accumulation by factor", "pywr-core/src/state/mod.rs complete / update_derived"),
   ("solver row limiting use by the available volume", "pywr-core/src/solvers/builder.rs")],
  ["virtual storage volume in State before and after each step"])

p("C07", "Every step's allocation is least-cost, whatever the solver or its history",
  "At every time-step of every scenario the total cost of the allocation chosen equals the minimum achievable under that time-step's constraints and costs. It is the same minimum for every solver, and does not depend on what the solver instance solved before.",
  ["histories", "configurations", "schedules"],
  "every sequence of steps seen by a persistent solver instance, every pair of solvers, every change of costs and bounds between steps",
  "Tests compare final numbers for a few fixed models; a stale cost, bound or basis kept by a persistent solver only shows after particular sequences of changes.",
  ["pywr-core/src/solvers/builder.rs", "pywr-core/src/solvers/highs/mod.rs", "pywr-core/src/solvers/microlp/mod.rs", "pywr-core/src/edge.rs", "pywr-core/src/node.rs"],
  [("objective coefficients recomputed every step from node costs", "pywr-core/src/solvers/builder.rs"),
   ("solver receives changed bounds, costs and coefficients each step", "pywr-core/src/solvers/highs/mod.rs")],
  ["edge flows and node costs in State after each step"])

p("C08", "Multi-network models hand over exactly the right value at the right time",
  "In a multi-network model each transferred value received by a network at a time-step is the sending network's metric value for the same scenario: the current time-step's value when the sender has already been simulated in this time-step, otherwise the previous time-step's, with the configured initial value at the first time-step. Networks otherwise behave exactly as they would alone with those values as inputs.",
  ["histories", "schedules", "configurations"],
  "every order of networks, set and direction of transfers, scenario, time-step and thread schedule",
  "The tests contain a couple of two-network models; order, chaining, initial values and per-scenario routing over all steps and schedules are not covered.",
  ["pywr-core/src/models/multi.rs", "pywr-schema/src/model.rs", "pywr-core/src/network.rs"],
  [("transfers computed before each network's step, by relative order of networks", "pywr-core/src/models/multi.rs"),
   ("initial value at the first step", "pywr-core/src/models/multi.rs")],
  ["inter-network transfer values in State, sender's metric after its step"])

p("C09", "Parameters are evaluated in dependency order with correct lag and history",
  "At each time-step every parameter takes the value defined by its own inputs for that scenario and time-step: values of other parameters are those of the same time-step whatever the declaration order, storage states are those at the start of the time-step, and flows those of the previous time-step. Delay, rolling-window, switching and threshold parameters return exactly what their definition says about the history of their input, including before enough history exists.",
  ["histories", "programs", "schedules"],
  "every dependency graph and declaration order, every history of inputs, scenario and time-step",
  "Each parameter's unit test (most of them not run here) uses a constant or short input; combinations, ordering and long histories through the whole engine are not checked.",
  ["pywr-core/src/parameters", "pywr-core/src/metric.rs", "pywr-core/src/network.rs", "pywr-schema/src/parameters"],
  [("topological construction and separate before/after schedules", "pywr-core/src/parameters/mod.rs"),
   ("internal state per scenario", "pywr-core/src/state, pywr-core/src/parameters/*.rs"),
   ("phases of a step", "pywr-core/src/network.rs compute_components, after")],
  ["parameter values in State after each step"])

p("C10", "Simulated time is exact and calendar-driven values follow it",
  "A run simulates exactly the time-steps from the start to the end date at the configured step (hours, days or calendar frequency), in order, each once, with the right length. Daily, weekly, monthly, diurnal and other calendar-driven values at each time-step are those their definition gives for that time-step's date, including in leap years and across year ends.",
  ["histories", "configurations"],
  "every start and end date, step length and frequency, over many simulated years, and independent of the wall clock",
  "Tests use one or two years and daily steps; leap days, year ends, month-end frequencies and sub-daily steps multiply into cases a handful of tests cannot sample.",
  ["pywr-core/src/timestep.rs", "pywr-core/src/parameters/profiles", "pywr-core/src/models/mod.rs", "pywr-schema/src/model.rs", "pywr-schema/src/parameters/profiles.rs"],
  [("time-step generation", "pywr-core/src/timestep.rs"),
   ("calendar indexing", "pywr-core/src/timestep.rs, pywr-core/src/parameters/profiles/*.rs")],
  ["time domain of the model", "parameter values after each step"])

p("C11", "Every scenario gets exactly its own data and label",
  "The scenarios simulated are exactly the requested combinations of the scenario groups (all combinations, or the chosen subset), each once, in a stable order. Every scenario-dependent input, recorded value and output label of a simulated scenario belongs to that scenario's own combination of group members.",
  ["configurations", "schedules", "histories"],
  "every group structure, subset by slice, index or label, explicit combination list, and every schedule",
  "Tests check index arithmetic for a few fixed domains; that every input and output is routed by the same mapping under parallel stepping is not checked end to end.",
  ["pywr-core/src/scenario.rs", "pywr-core/src/parameters/array.rs", "pywr-core/src/parameters/constant_scenario.rs", "pywr-core/src/recorders", "pywr-schema/src/model.rs"],
  [("scenario domain builder and indices", "pywr-core/src/scenario.rs"),
   ("lookup of the group's index by scenario-dependent parameters", "pywr-core/src/parameters/array.rs, constant_scenario.rs")],
  ["parameter values per scenario, output rows and labels"])

p("C12", "Recorded and aggregated values equal the simulated history",
  "Metric sets record for every scenario each of their metrics' values of every time-step. With a time aggregation they hold exactly one value for each complete or final period, equal to the configured function of that period's values weighted by the time covered; aggregates over time, metrics and scenarios reported from a recorder equal the configured functions of the recorded values.",
  ["histories", "configurations", "schedules"],
  "every history of values, step length, aggregation period and function, nesting, start and end position within a period",
  "Unit tests aggregate one synthetic series; partial first and last periods, irregular steps, nested aggregators and several scenarios are not sampled.",
  ["pywr-core/src/recorders/aggregator", "pywr-core/src/recorders/metric_set.rs", "pywr-core/src/recorders/memory.rs", "pywr-core/src/agg_funcs", "pywr-schema/src/metric_sets"],
  [("period detection and value weighting", "pywr-core/src/recorders/aggregator"),
   ("flush of the last period at finalise", "pywr-core/src/recorders/metric_set.rs")],
  ["memory recorder contents", "aggregated values of the run's result"])

p("C13", "CSV, HDF5 and memory outputs are complete and agree",
  "When a run reports success, each CSV (long or wide) and HDF5 output contains exactly one value for every time-step (or, in CSV, every period of the metric set's aggregator), scenario and metric of its metric set, labelled with the right time, scenario and metric. The value equals what the simulation computed, up to the format's stated precision, for any number of outputs written side by side, and replaces any earlier file of the same name.",
  ["histories", "configurations", "schedules"],
  "every combination of outputs, metric sets, scenario structures, run lengths, thread schedules and benign I/O behaviour (short writes and reads, interrupted calls)",
  "Tests read back one or two files of one model; agreement between formats, several scenarios, labels and short or interrupted writes are not covered.",
  ["pywr-core/src/recorders/csv.rs", "pywr-core/src/recorders/hdf.rs", "pywr-core/src/recorders/memory.rs", "pywr-schema/src/outputs"],
  [("row and column layout, headers and labels", "pywr-core/src/recorders/csv.rs"),
   ("one dataset per metric, time by scenario", "pywr-core/src/recorders/hdf.rs")],
  ["files written in the simulated disk", "memory recorder of the same metric set"])

p("C14", "Output failures and crashes are never silent and never corrupt later runs",
  "If writing an output fails (disk full, I/O error, cannot create) at any operation, the run returns an error; it never reports success with missing output, panics or hangs. After a crash at any point a CSV file holds only a prefix of the correct output, and running the model again over whatever files are left gives exactly the correct complete output.",
  ["crash_points", "fault_sequences"],
  "a failure or crash at every write, open, truncate or close of every output, with torn last writes",
  "No existing test makes the disk fail or crashes a run.",
  ["pywr-core/src/recorders/csv.rs", "pywr-core/src/recorders/hdf.rs", "pywr-core/src/network.rs"],
  [("errors from recorder setup, save and finalise are returned by the run", "pywr-core/src/network.rs, pywr-core/src/models/simple.rs"),
   ("files are created/truncated at setup", "pywr-core/src/recorders/csv.rs, hdf.rs")],
  ["return value of the run", "bytes on the simulated disk"])

p("C15", "Input data reach the simulation intact or loading fails",
  "Every value of a time series or data table used by a scenario at a time-step equals the value in the input file for that date (aligned or resampled to the time-step as documented), column and key. If an input file cannot be read completely, has been altered against its checksum, lacks the required dates, columns or keys, or is truncated, loading reports an error instead of simulating wrong data.",
  ["fault_sequences", "inputs", "configurations"],
  "every short read, interrupted call, read error and stored corruption at any offset, every alignment of file dates and model time-steps",
  "Tests load a few well-formed files from a healthy disk with daily data.",
  ["pywr-schema/src/timeseries", "pywr-schema/src/data_tables", "pywr-schema/src/digest.rs", "pywr-core/src/parameters/array.rs"],
  [("date alignment and resampling, length check", "pywr-schema/src/timeseries/align_and_resample.rs"),
   ("keyed lookup of table values", "pywr-schema/src/data_tables"),
   ("checksum verification", "pywr-schema/src/digest.rs")],
  ["parameter values after each step", "result of loading"])

p("C16", "Stepping by hand, pausing, restarting and mixing runs equals one whole run",
  "Setting up a model, stepping it one time-step at a time with any thread pool per step, pausing, interleaving with other runs of the same or other models in the process, and abandoning runs half-way give every run the same results as one uninterrupted run, and stepping past the end is an error that changes nothing. Values given to variable parameters of a running state apply to exactly the addressed parameter and scenarios from the next time-step on, can be read back, and never affect another run.",
  ["histories", "schedules", "programs"],
  "every interleaving of step-wise sessions, abandonment point, choice of sequential or parallel stepping per step, and variable updates",
  "Tests call run once on a fresh model; step-wise sessions are used with one fixed pattern.",
  ["pywr-core/src/models/simple.rs", "pywr-core/src/network.rs", "pywr-core/src/parameters/mod.rs", "pywr-core/src/state"],
  [("all mutable run data lives in the model state", "pywr-core/src/models/simple.rs ModelState"),
   ("variable values stored in per-scenario parameter states", "pywr-core/src/network.rs set_f64_parameter_variable_values*")],
  ["per-step state of each session", "variable values read back"])

p("C17", "The batched multi-scenario solver treats scenarios independently",
  "With the multi-scenario (SIMD interior-point) solver, every scenario's flows are feasible and least-cost at every time-step to within the solver's tolerance, and agree with a scenario-by-scenario solve. Batching is invisible: which scenarios share a batch, the number of scenarios, thread count and interleaving never make one scenario receive another's data or change its total cost beyond tolerance.",
  ["schedules", "configurations", "histories"],
  "every number of scenarios relative to the batch width, batch composition, thread count and interleaving, and every history of steps",
  "Tests run it on the shared models with few scenarios; batch remainders and cross-lane routing under different schedules are not covered.",
  ["pywr-core/src/solvers/ipm_simd", "ipm-simd/src", "ipm-common/src", "pywr-core/src/network.rs", "pywr-core/src/models/simple.rs"],
  [("scenarios are packed into SIMD lanes in fixed-size chunks", "pywr-core/src/solvers/ipm_simd"),
   ("path-following method run per chunk", "ipm-simd/src")],
  ["edge flows and volumes in State after each step"])

p("C18", "Saving and loading a model file preserves its meaning",
  "Serialising a loaded model back to JSON and loading it again gives a model equal to the first one. ",
  ["inputs"],
  "all model files",
  "Tests round-trip a fixed set of example files.",
  ["pywr-schema/src/model.rs", "pywr-schema/src/nodes", "pywr-schema/src/parameters"],
  [("serde derive on schema types", "pywr-schema/src")],
  ["serialised JSON"])

p("C19", "Version 1 models are converted without changing their meaning",
  "Converting a Pywr v1 model gives a v2 model with the same nodes, connections and parameter values, and reports every component it cannot convert.",
  ["inputs"],
  "all v1 model files",
  "Tests convert a fixed set of v1 files.",
  ["pywr-schema/src/v1.rs", "pywr-schema/src/model.rs"],
  [("TryFromV1 / conversion data", "pywr-schema/src/v1.rs")],
  ["converted schema"])

p("C20", "Invalid models are rejected when loaded, not mis-simulated",
  "A model with unknown or duplicate names, circular parameter dependencies, missing references or connections not allowed between nodes is rejected with an error when it is loaded or built. It never panics and never silently drops the offending part.",
  ["inputs"],
  "all syntactically valid but semantically invalid model files",
  "A fixed list of invalid files is tested.",
  ["pywr-schema/src/network.rs", "pywr-core/src/network.rs", "pywr-core/src/parameters/mod.rs"],
  [("builder errors", "pywr-core/src/network.rs NetworkBuildError")],
  ["result of loading and building"])

for x in P:
    x["statement"] = x["statement"].strip()
    assert len(x["title"]) <= 80, x["id"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
