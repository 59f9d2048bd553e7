import core
LEVEL = {}
TECH = "CBMC code contracts (goto-instrument --dfcc --enforce-contract) on the real functions, discharged by SAT/SMT"
NOTES = {
 "C01": "every FMI 3.0 function under contract for every model; unbounded array lengths (loops are unreachable under the precondition)",
 "C02": "every FMI 2.0 function under contract for every model; unbounded array lengths (loops are unreachable under the precondition)",
}
MODS = {"C25": ("c25", "jobs"), "C26": ("c26", "jobs"), "C27": ("c27", "jobs27"), "C28": ("c27", "jobs28"), "C29": ("c29", "jobs29"), "C32": ("c29", "jobs32"), "C30": ("c30", "jobs30"), "C31": ("c30", "jobs31"), "C33": ("c30", "jobs33"), "C12": ("c12", "jobs"), "C22": ("c22", "jobs"), "C23": ("c23", "jobs"), "C24": ("c24", "jobs"), "C09": ("c09", "jobs09"), "C10": ("c09", "jobs10"), "C11": ("c09", "jobs11"), "C13": ("c13", "jobs13"), "C14": ("c13", "jobs14"), "C15": ("c13", "jobs15"), "C21": ("c21", "jobs"), "C20": ("c20", "jobs"), "C19": ("c19", "jobs"), "C16": ("c16", "jobs"), "C17": ("c17", "jobs17"), "C18": ("c17", "jobs18"), "C03": ("c03", "jobs"), "C04": ("c04", "jobs04"), "C05": ("c04", "jobs05"), "C06": ("c04", "jobs06"), "C07": ("c04", "jobs07"), "C08": ("c04", "jobs08")}
NOTES["C03"] = "every mode-changing function under contract; loop-free or completely unwound; leaving initialization/configuration proved for every model"
NOTES["C04"] = "list functions by loop contract for lists of any length, every real getter under contract for every reference, position and count; calculateValues discharged against the equations; text contents, matrix read position and whole-path jobs bounded"
NOTES["C05"] = "list functions by loop contract for lists of any length, every real setter under contract; text contents and whole-path jobs bounded"
NOTES["C06"] = "null, unknown, wrong-count and empty requests by loop contracts and per-variable contracts, any list length; text contents and whole-path jobs bounded"
NOTES["C07"] = "pointer, bounds, overflow and frame obligations on exactly sized caller arrays of any length (loop contracts, per-variable contracts); text contents, matrix read position and whole-path jobs bounded"
NOTES["C08"] = "every protected or limited variable under contract in every mode, setter by setter and through the list functions (any length); text contents and whole-path jobs bounded"
NOTES["C16"] = "doFixedStep of every model against explicit Euler, the time grid and the event rules over all floating-point values (SMT); complete"
NOTES["C19"] = "eventUpdate of every model and both discrete-state functions against the event rules over all inputs (SMT for floating point); complete"
NOTES["C20"] = "Jacobian entries over all floating-point values (SMT); products of any size by nested loop contracts for Jacobians with a single non-zero entry of value 1 and finite seeds; products for every Jacobian up to 2x2 (quick) or 3x3 (thorough) bounded"
NOTES["C13"] = "argument validation of both step functions, every model, every floating-point value; complete (the stepping loop is unreachable or cut at the first internal step)"
NOTES["C14"] = "stepping loop of both step functions proved by a loop contract (any number of internal steps, every floating-point value); each internal step and the tolerance relation proved separately"
NOTES["C15"] = "as C14, for event, early-return and termination handling (loop contract); event rules and status queries complete"
NOTES["C09"] = "save/restore sequences of the real functions for every model, over every pair of instances; complete except that the reused-object sequence fixes the number of states/indicators"
NOTES["C10"] = "serialize/deserialize sequences of the real functions for every model over every pair of instances; refusals for every size"
NOTES["C11"] = "reset of every model from every reachable instance; complete"
NOTES["C12"] = "instantiation and release of every model for every argument combination and every allocation failure point; allocation ledger; complete"
NOTES["C22"] = "every clock function and every model partition of Clocks under contract (busy loop and reference lists of any length by loop contracts); whole-path lists bounded"
NOTES["C23"] = "both log functions with their real bodies, every status, flag, callback and allocation outcome, messages up to six characters (bounded); debug-logging switches for category lists of any length by loop contract"
NOTES["C24"] = "reading the output over locations of several shapes with symbolic characters (bounded) with recorded file calls; locations around the path buffer limit with the buffer scaled down"
NOTES["C25"] = "frame obligations of every function of both versions (successful and refused calls) with local static variables hoisted out of the frame; stepping loop by a loop contract; reference lists bounded as in C04/C05"
NOTES["C26"] = "every declared variable of every model description read after a real instantiation; every undeclared value reference; counts, nominal values and token; complete"
NOTES["C27"] = "every FMI 3.0 importer function against a recording function table over all arguments, statuses and logger settings; complete"
NOTES["C28"] = "every FMI 2.0 importer function against a recording function table over all arguments, statuses and logger settings; complete"
NOTES["C29"] = "instantiation of every interface type and the recorded mode after every importer function; complete"
NOTES["C30"] = "both append functions over buffer fill levels, value types and failing reallocation (bounded text and element counts); every logged call has a value for every placeholder"
NOTES["C31"] = "URI conversion over all paths up to five bytes and all buffer sizes; library path over all short directories, identifiers and buffer sizes (bounded)"
NOTES["C32"] = "symbol loading of both versions and all interface types over every subset of missing functions; complete"
NOTES["C33"] = "instance creation and release and the allocation helpers with a ledger over every allocation failure; complete (names up to four characters)"
NOTES["C21"] = "row-major access with symbolic dimensions for every array variable; model equations for sampled (quick) or all (thorough) dimension choices; structural parameters only in configuration modes"
NOTES["C17"] = "every continuous-state function of every model under contract; complete"
NOTES["C18"] = "derivative and indicator functions and calculateValues of every model against the equations over all floating-point values (SMT); StateSpace equations for sampled (quick) or all 216 (thorough) dimension choices"
def build(pid):
    if pid in ("C01", "C02"):
        import c01
        return c01.jobs(3 if pid == "C01" else 2), c01.ASSUME, NOTES[pid]
    if pid in MODS:
        m = __import__(MODS[pid][0])
        return getattr(m, MODS[pid][1])(), m.ASSUME, NOTES[pid]
    raise core.ToolError("unknown property " + pid)
