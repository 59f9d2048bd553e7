#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property list is edited here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

F3, F2, CS, MH = "src/fmi3Functions.c", "src/fmi2Functions.c", "src/cosimulation.c", "include/model.h"
I0, I2, I3 = "src/FMI.c", "src/FMI2.c", "src/FMI3.c"
MODELS = ["BouncingBall/model.c", "Clocks/model.c", "Dahlquist/model.c", "Feedthrough/model.c", "Resource/model.c",
          "Roberts/model.c", "Stair/model.c", "StateSpace/model.c", "VanDerPol/model.c"]

prop("C01", "FMI 3.0 calls made in a forbidden mode are rejected without side effects",
 "Every FMI 3.0 function of every FMU called on an instance whose mode does not permit it returns error, puts the instance into the terminated mode and changes neither simulation time, event information, communication point, model variables, logging settings nor any caller-supplied output. Called with a null instance it returns error. The permitted modes are those of the FMI 3.0 state machine for that function.",
 ["inputs", "histories", "configurations"], "all FMI 3.0 functions, all models, all instance states reachable or not, all argument values including arbitrarily long arrays and dangling or null pointers that the rejected call must not touch",
 "The tests drive FMUs only through legal call sequences; the illegal (function, mode, argument) combinations are never executed.",
 [F3, CS, MH], [("permitted-mode table and check at function entry", F3), ("status aggregation and transition to terminated", F3)],
 [("instance mode", "position in the FMI state machine", MH)], ["return status of fmi3*", "later fmi3Get* results"])
prop("C02", "FMI 2.0 calls made in a forbidden mode are rejected without side effects",
 "Every FMI 2.0 function of every FMU called on an instance whose mode does not permit it returns error, puts the instance into the terminated mode and changes neither simulation time, event information, communication point, model variables, logging settings nor any caller-supplied output. Called with a null component it returns error. The permitted modes are those of the FMI 2.0 state machine for that function.",
 ["inputs", "histories", "configurations"], "all FMI 2.0 functions, all models, all instance states, all argument values",
 "The tests drive FMUs only through legal call sequences.",
 [F2, CS, MH], [("permitted-mode table and check at function entry", F2)],
 [("instance mode", "position in the FMI state machine", MH)], ["return status of fmi2*"])
prop("C03", "Permitted mode-changing calls enter exactly the mode the standard prescribes",
 "A mode-changing call (enter/exit initialization, configuration, event, continuous-time and step mode, setup experiment, set time, completed integrator step, terminate) made in a permitted mode succeeds and leaves the instance in exactly the mode prescribed for its interface type and event-mode setting. Start time, stop time (infinite when undefined), current time and next communication point take the values passed in, completed integrator step reports false for both of its results, and model variables, logging settings and event information are left alone.",
 ["inputs", "histories", "configurations"], "all models and both FMI versions, all permitted source modes, interface types, event-mode settings and argument values",
 "The tests follow a few fixed mode sequences per interface type with one start/stop time each.",
 [F3, F2, CS], [("mode transitions", F3), ("mode transitions", F2), ("solver configuration on leaving initialization/configuration", CS)])
prop("C04", "Reading variables returns the current model values in request order",
 "A successful read of any list of variables, in any order and with repetitions, delivers for every listed variable exactly its current value - for calculated variables the value given by the model equations from the current states, parameters, inputs and time - concatenated in request order. Reading changes no variable that can be set, no time, no mode and no event information. A read of declared variables of the right type with the right value count succeeds in every permitted mode.",
 ["inputs", "histories", "configurations"], "all models and both FMI versions, all variable types, all lists of value references of any length, all variable values (including NaN and infinities) and all modes that permit reading",
 "Tests read each model's outputs at a handful of communication points, one fixed list, and compare with a reference trajectory for default parameters only.",
 [F3, F2, CS] + MODELS, [("variable access loop", F3), ("variable access loop", F2), ("per-type getters", "*/model.c"), ("lazy recalculation of calculated variables", "*/model.c")])
prop("C05", "Writing variables stores exactly the given values and nothing else",
 "A successful write of any list of settable variables leaves every listed variable with the last value supplied for it and every other settable variable, the time, the mode and the event information as before, so a subsequent read returns what was written and calculated variables follow from it. A write of settable variables with permitted values and the right value count in a permitted mode succeeds.",
 ["inputs", "histories", "configurations"], "all models and both FMI versions, all variable types, all lists of value references, all values",
 "Tests set few variables once with one value.",
 [F3, F2, CS] + MODELS, [("variable access loop", F3), ("variable access loop", F2), ("per-type setters", "*/model.c")])
prop("C06", "Invalid variable access is refused with an error",
 "A read or write naming a value reference that does not exist, has another type or may not be written, supplying too few or too many values, or passing null for a needed array returns error and puts the instance into the terminated mode. A request for zero variables succeeds and changes nothing.",
 ["inputs", "configurations"], "all models and both FMI versions, all variable types, all value references (32 bit), counts and null/non-null combinations",
 "Tests contain no invalid accesses.",
 [F3, F2, CS] + MODELS, [("value count checks", MH), ("argument null checks", F3), ("argument null checks", F2), ("unknown value reference branches", "*/model.c")])
prop("C07", "Variable access never touches memory outside the caller's arrays",
 "Whatever value references, counts and values are passed, reading and writing variables only reads the first nValueReferences references and the first nValues values and only writes the first nValues values (and sizes), returned string and binary pointers denote complete, correctly terminated or sized data, and no out-of-bounds or null access to instance memory occurs. This also holds when the call ends in an error.",
 ["inputs", "histories", "configurations"], "all models and both FMI versions, all array sizes including empty ones, all value references, string lengths and binary sizes",
 "Tests never pass short arrays or over-long strings and do not run under a memory checker.",
 [F3, F2, MH] + MODELS, [("size checks before element access", "*/model.c"), ("string/binary length limits", "Feedthrough/model.c")])
prop("C08", "Value limits and mode-dependent write protection are enforced",
 "A write of a value outside the declared range of a bounded variable (Stair counter below ten, Feedthrough enumeration, string length and binary size, StateSpace dimensions) is refused with error and the stored value stays unchanged. A write to a parameter or discrete variable in a mode in which the model forbids it (fixed parameters of Model Exchange instances after initialization, discrete and tunable ones (such as the VanDerPol parameter mu) outside event mode, structural parameters outside configuration modes, states outside their permitted modes) is refused with error and leaves the stored value unchanged; inside the permitted modes it is accepted.",
 ["inputs", "histories", "configurations"], "all bounded or protected variables, all values, all modes and interface types",
 "Tests write only legal values in legal modes.",
 MODELS, [("range and mode checks in setters", "*/model.c")])
prop("C09", "A saved FMU state restores the instance completely",
 "Saving the state of an instance and later restoring it - into the same or another instance of the model, with or without copying in between - brings back simulation time, start and stop time, mode, event information, step counter, communication point, early-return/event-mode settings, solver memory and all model variables bit for bit, so every later result equals the one that would have been obtained at the moment of saving. Saving changes nothing in the instance, an existing state object is reused (possibly moved), and restoring leaves identity, callbacks, resource location and logging settings of the target alone and the saved state unmodified.",
 ["histories", "inputs", "configurations"], "all models and both FMI versions, all instance contents",
 "The stable tests never save and restore states; no test compares complete instances.",
 [CS, F3, F2], [("state copy", CS), ("field-by-field restore", CS)])
prop("C10", "Serialization of FMU states round-trips and checks sizes",
 "The reported serialized size is constant for a model; serializing writes exactly that many bytes, and deserializing them, into a new or an existing state object, yields a state equal to the original. A wrong size or a null state is refused with error without writing to the buffer or the state object.",
 ["inputs", "configurations"], "all models and both FMI versions, all state contents, all sizes",
 "No stable test serializes states.",
 [CS, F3, F2], [("size check and copy", F3), ("size check and copy", F2)])
prop("C11", "Reset returns the instance to its freshly instantiated condition",
 "After a successful reset an instance is observably equal to a newly created instance with the same arguments: instantiated mode, time and start time zero, no stop time restriction carried over, every variable at its start value, event information cleared and the internal step counter zero. Identity, callbacks, resource location and logging settings are kept.",
 ["histories", "configurations"], "all models and both FMI versions, all instance contents before the reset",
 "Tests that reset do so once after one standard simulation and compare a trajectory, which does not expose most stale fields.",
 [CS, F3, F2] + MODELS, [("reset", CS), ("start values", "*/model.c")])
prop("C12", "Instantiation validates its arguments and yields a clean instance",
 "Instantiation fails (returns null, leaks nothing) for a missing or empty instance name, a missing, empty or wrong instantiation token, a missing logger in FMI 2.0, event mode requested from a model without event support, an interface type the model does not support, or lack of memory. Otherwise it returns an instance that owns copies of its name and resource location, has exactly the given callbacks, environment and flags, is in instantiated mode, logs errors, and has every variable at its start value; freeing it (or null) releases everything it owns.",
 ["inputs", "fault_sequences", "configurations"], "all models, all argument combinations, all string contents up to a bound, allocation failure at every allocation",
 "Tests instantiate with correct arguments and unlimited memory only.",
 [CS, F3, F2], [("argument validation and construction", CS), ("per-interface instantiation functions", F3), ("instantiation", F2), ("destruction", CS)])
prop("C13", "A co-simulation step with invalid arguments is refused",
 "A step whose communication point differs from the expected one (beyond the comparison tolerance), whose size is not positive, or that would end beyond the stop time (beyond the tolerance) returns error, puts the instance into the terminated mode and advances neither time nor model variables nor the communication point. With arguments that pass these conditions the step is not refused.",
 ["inputs", "configurations"], "all models and both FMI versions, all doubles including NaN and infinities for communication point, step size, expected point and stop time",
 "Tests step on one equidistant grid.",
 [F3, F2, CS], [("argument checks at the start of a step", F3), ("argument checks at the start of a step", F2), ("tolerance comparison", CS)])
prop("C14", "A co-simulation step advances time on the solver grid to the requested point",
 "A step that runs to its end performs internal steps as long as the next grid point does not lie beyond the requested communication point (within tolerance) and no longer, so the time reached is start time plus a whole number of internal steps, within one internal step of the requested point, and never decreases. Afterwards the expected next communication point is the requested one (or, when the step ended early, the time reached), and the reported last successful time equals the instance's time.",
 ["inputs", "histories", "configurations"], "all models and both FMI versions, all start times, step sizes and instance states, any number of internal steps",
 "Tests use one or two step sizes that are multiples of the internal step.",
 [F3, F2, CS], [("stepping loop", F3), ("stepping loop", F2), ("grid time", CS)])
prop("C15", "Events, early return and termination during a step are reported correctly",
 "When an internal step triggers an event, a step in event mode reports that event handling is needed and ends there if early return is allowed; without event mode the event is handled immediately by the model's event rules. Early return is reported exactly when it is allowed and the requested point was not reached; a termination request of the model ends the step and is reported (FMI 2.0: discard status, queryable as terminated together with the last successful time).",
 ["inputs", "histories", "configurations"], "all models with events, all event-mode/early-return settings, all instance states",
 "Tests cover one event trajectory per setting.",
 [F3, F2, CS], [("stepping loop and flags", F3), ("stepping loop and status queries", F2)])
prop("C16", "Each internal step performs one explicit Euler step and detects events",
 "One internal step replaces the continuous states by states plus step size times the state derivatives evaluated before the step, increments the step counter, and sets time to start time plus counter times step size. It reports a state event exactly when an event indicator changed between positive and non-positive since the last step, a time event exactly when a defined next event time has been reached, remembers the new indicators, and calls the intermediate-update callback once with the new time if one is installed.",
 ["inputs", "histories", "configurations"], "all models, all instance states, all values of states, indicators and event times",
 "Tests compare a few output points of default trajectories.",
 [CS] + MODELS, [("fixed step", CS)])
prop("C17", "The continuous-state interface is consistent and size checked",
 "The reported numbers of continuous states and event indicators match the model (for StateSpace its current state dimension); setting the state vector makes exactly those values the model's states in declared order, getting it returns them, and nominal values are the declared ones. A vector of the wrong length or a null vector is refused with error and leaves the states unchanged.",
 ["inputs", "configurations"], "all models and both FMI versions, all state values, all vector lengths",
 "Model-exchange tests use the correct length and one trajectory.",
 MODELS + [F3, F2, CS], [("continuous state functions", "*/model.c")])
prop("C18", "State derivatives and event indicators follow the model equations",
 "The derivatives and event indicators returned to a model-exchange importer equal the documented model equations evaluated at the current states, parameters, inputs and time, also directly after states, parameters or inputs were changed. Evaluating them changes no settable variable, time or mode.",
 ["inputs", "histories", "configurations"], "all models with states or indicators, both FMI versions, all values of states, parameters and inputs",
 "Tests integrate from the default start values only.",
 MODELS, [("model equations", "*/model.c"), ("recalculation before evaluation", "*/model.c")])
prop("C19", "Event updates follow the model's event rules and are reported faithfully",
 "Updating discrete states applies exactly the model's event rule: the ball bounces with restitution and comes to rest below the minimum speed, the stair counter advances by one at each event time, schedules the next event one second later, requests termination at ten and fails beyond, other models change nothing. The event information handed to the caller (more updates needed, terminate, nominals changed, values changed, next event time) is exactly the resulting one, for FMI 3.0 also when some of the output pointers are null.",
 ["inputs", "histories", "configurations"], "all models and both FMI versions, all instance states, all null/non-null output combinations",
 "Tests observe the default event trajectories.",
 MODELS + [F3, F2], [("event update", "*/model.c"), ("event info output", F3), ("event info output", F2)])
prop("C20", "Directional, adjoint and output derivatives match the equations",
 "Directional derivatives equal the product of the analytic Jacobian and the seed, adjoint derivatives the product of the transposed Jacobian and the seed, for every choice of unknowns and knowns, and the Jacobian entries are the partial derivatives of the model equations; models without derivative support return error. First-order output derivatives of the bouncing ball equal velocity and acceleration, other orders, variables and models return error.",
 ["inputs", "configurations"], "VanDerPol, Roberts and BouncingBall, both FMI versions where available, all variable values, seeds and value reference lists up to the stated bound",
 "No stable test evaluates derivatives.",
 ["VanDerPol/model.c", "Roberts/model.c", "BouncingBall/model.c", F3, F2], [("partial derivatives", "*/model.c"), ("Jacobian-vector products", F3), ("Jacobian-vector products", F2)])
prop("C21", "StateSpace matrices keep their layout for every dimension choice",
 "For every permitted choice of input, state and output dimensions the matrices and vectors are read and written row-major with the declared shapes (A n*n, B n*m, C r*n, D r*m, x0/x/der(x) n, u m, y r), a value written is read back unchanged, and der(x) = A x + B u and y = C x + D u use exactly the current dimensions. Structural parameters can be changed in configuration and reconfiguration mode and only there.",
 ["inputs", "configurations"], "all dimensions 0..5, all matrix and vector entries, all modes",
 "The only test that changes dimensions is not among the passing ones; others use the default 3x3x3 identity.",
 ["StateSpace/model.c", CS], [("matrix getters and setters", "StateSpace/model.c"), ("equations", "StateSpace/model.c")])
prop("C22", "Clock activation counts ticks and notifies the importer exactly when due",
 "Activating one of the three input clocks increments exactly its own tick counter and the total, accumulates and clears the second clock's input, arms the third clock's interval at time four, and sets the output clock exactly when it was not set and the total is a multiple of five. The importer is notified exactly when the output clock is set or a new interval is available, lock and unlock callbacks are called in balanced pairs when present and the second and third partition change the shared total, output clock, input and result only between them, reading the output clock clears it, an interval change is reported once, and any other clock is refused with error.",
 ["inputs", "histories", "configurations"], "all counter values below overflow, all activation times in integer range, all callback presence combinations",
 "The scheduled-execution test runs one fixed schedule and is not deterministic in timing.",
 ["Clocks/model.c", F3], [("model partitions", "Clocks/model.c"), ("clock and interval access", "Clocks/model.c")])
prop("C23", "Log settings decide exactly which messages reach the importer",
 "Setting debug logging switches exactly the named categories (all when none is named) and refuses null or unknown categories with error. An event message is delivered to the logger only while event logging is on, an error message only while error logging is on, never without a logger, and with the environment, status, category and fully formatted text of the message, without reading or writing outside the message buffer.",
 ["inputs", "configurations"], "all category lists up to the stated bound, all flag combinations, all message lengths, allocation failure",
 "Tests install a logger but never check filtering or long messages.",
 [CS, F3, F2], [("log filtering and formatting", CS), ("category parsing", CS)])
prop("C24", "The Resource model reads its value from the given resource location",
 "The output equals the first character of the file y.txt inside the resource location given at instantiation (for FMI 2.0 a file URI in which a percent sign with two hexadecimal digits stands for one byte), the file is opened exactly by that path, read and closed. A missing location, an unsupported scheme or a missing file makes reading the output fail with error, and no location, however long, causes a memory error.",
 ["inputs", "fault_sequences", "configurations"], "all resource locations up to the stated bound including null, all file contents, failing file open",
 "Tests use one valid resource directory.",
 ["Resource/model.c", F3, F2], [("path construction and file reading", "Resource/model.c")])
prop("C25", "Operations on one instance never affect another instance",
 "No FMI function of an FMU writes anything other than its own instance, the output arguments it was given and memory it allocates itself; in particular two instances of the same FMU in one process never influence each other.",
 ["inputs", "histories", "configurations"], "all models and both FMI versions, all functions, all instance states and arguments within the stated array bounds",
 "Tests run a single instance per process.",
 [F3, F2, CS] + MODELS, [("all state lives in the instance", MH)])
prop("C26", "Declared start values and identifiers match the implementation",
 "For every variable in a model description the FMU, right after instantiation, returns the declared start value when read with the declared type and value reference (approximate start values and input clocks aside), and refuses value references that are not declared. The instantiation token, the number of continuous states and event indicators, and the nominal values in the model description are those of the implementation.",
 ["configurations", "inputs"], "all models and both FMI versions, all declared variables, all undeclared value references",
 "Tests read the description but only for outputs and never compare start values of the other variables.",
 ["BouncingBall/FMI3.xml", "Feedthrough/FMI3.xml", "StateSpace/FMI3.xml", "BouncingBall/FMI2.xml", "Feedthrough/FMI2.xml"] + MODELS, [("start values", "*/model.c"), ("value references and token", "*/config.h")])
prop("C27", "The FMI 3.0 importer passes every call through unchanged",
 "Every importer function for FMI 3.0 calls the matching function of the loaded FMU exactly once with the FMU's component and exactly the caller's arguments, returns exactly the status the FMU returned (leaving configuration mode outside of it is refused without a call), and leaves the caller's output arguments as the FMU wrote them. When a call logger is installed it is invoked exactly once with that status.",
 ["inputs", "configurations"], "all importer functions, all arguments, all returned statuses, logging on and off",
 "Tests exercise a subset of functions with status OK.",
 [I3, I0], [("call forwarding", I3)])
prop("C28", "The FMI 2.0 importer passes every call through unchanged",
 "Every importer function for FMI 2.0 calls the matching function of the loaded FMU exactly once with the FMU's component and exactly the caller's arguments, returns exactly the status the FMU returned, and leaves the caller's output arguments as the FMU wrote them. When a call logger is installed it is invoked exactly once with that status.",
 ["inputs", "configurations"], "all importer functions, all arguments, all returned statuses, logging on and off",
 "Tests exercise a subset of functions with status OK.",
 [I2, I0], [("call forwarding", I2)])
prop("C29", "The importer tracks the FMU's mode and instantiates it faithfully",
 "The importer's record of the FMU's mode after every mode-changing call that the FMU accepts is the mode the FMU itself enters for that interface type. Instantiation hands over name, token, resource path, flags and callbacks unchanged, records the component and interface type on success, returns an error and records no instantiated mode when the FMU refuses, and log messages of the FMU reach the importer's logger unchanged.",
 ["inputs", "configurations", "histories"], "all importer functions that change modes, all interface types and event-mode settings, FMU success and failure",
 "Tests follow successful standard sequences only.",
 [I2, I3], [("mode tracking", I3), ("mode tracking", I2), ("instantiation", I3), ("instantiation", I2)])
prop("C30", "Call log text is complete and never overruns its buffer",
 "Appending formatted text or an array of values to the importer's call-log buffer stores the complete text, always terminated, growing the buffer as needed, whatever the length and the fill level, and always terminates. Elements are separated by a comma and a blank, strings are quoted, binaries appear as hexadecimal digits, and every logged call supplies a value for each placeholder of its text.",
 ["inputs", "fault_sequences"], "all buffer fill levels and sizes, text lengths and element counts up to the stated bound, all value types, failing reallocation",
 "Tests log a few short calls.",
 [I0], [("log buffer growth and formatting", I0)])
prop("C31", "Paths are converted to URIs and library locations correctly or refused",
 "Converting a path to a file URI yields the scheme followed by the path with every byte that is not legal in a URI percent-encoded as two hexadecimal digits, so decoding gives back the path; the library path of an unpacked FMU is the directory, platform folder and model identifier joined with single separators. If the result does not fit into the given buffer an error is returned and nothing is written outside the buffer.",
 ["inputs"], "all paths up to the stated bound, all byte values, all buffer sizes",
 "Tests use short ASCII paths.",
 [I0], [("URI encoding", I0), ("library path", I0)])
prop("C32", "A library lacking a required function is rejected, otherwise all are bound",
 "When loading an FMU, if any required function for the interface type is missing from the library, instantiation returns an error status, reports the missing name and never calls into the library; otherwise each entry of the function table refers to the library function of the same name.",
 ["inputs", "fault_sequences", "configurations"], "every subset of missing functions, both FMI versions and all interface types",
 "Tests load complete FMUs only.",
 [I2, I3], [("symbol loading", I2), ("symbol loading", I3)])
prop("C33", "Importer instances and buffers are created and released cleanly",
 "Creating an importer instance yields one with its own copy of the name, the given loggers, an empty terminated log buffer and status OK, or null when memory runs out; freeing it (or null) unloads the library once and releases everything exactly once. The allocation helpers report failure with error status and leave the caller's pointer valid, treat size zero as null, and freeing through them resets the pointer.",
 ["inputs", "fault_sequences"], "all names up to the stated bound, allocation failure at every allocation, all pointer states",
 "Tests never fail allocations.",
 [I0], [("instance creation and release", I0), ("allocation helpers", I0)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
