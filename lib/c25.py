"""C25: frames. Every function of every FMU writes only its own instance, the output arguments and its own memory.

The contracts of the other checks carry explicit frames (assigns clauses). Here they are enforced with the frame
obligations as the deciding ones, for the successful and the refused calls of every function; functions that
allocate or release memory get their own jobs. Local static variables are hoisted to file scope before the
proof (core.hoist_statics), so that state shared between instances lies outside every frame."""
import copy, re
from models import *
import registry, c09, c12

SKIP = ("refused", ".null", "2x2", "3x3")
def clone(j):
    j = copy.copy(j); j.contract = copy.copy(j.contract)
    j.contract.ensures = [("returned", "1")]
    j.assigns_decide = True; j.mem = False; j.solver = None; j.ignore = tuple(j.ignore) + (r"\bens:",)
    j.post = ""; j.fallback = None if not j.fallback else j.fallback
    return j

def step_frame(j):
    """stepping loop: the frame holds for arbitrary results of the internal calls, so no invariant on values is needed"""
    fn = j.contract.name
    j = copy.copy(j)
    asg = "status, g_inst->time, g_inst->nSteps, g_inst->terminateSimulation, g_inst->isDirtyValues, g_inst->state, g_inst->status, g_log, g_a, g_pend" + (", nextCommunicationPointReached, OB[0]" if fn == "fmi3DoStep" else "")
    j.loop_contracts = loop_contract(fn, asg, "1 == 1", ["status"] + (["nextCommunicationPointReached"] if fn == "fmi3DoStep" else []))
    j.spec_decls = re.sub(r"__CPROVER_assert\(comp == g_inst.*?\"\);", "", j.spec_decls)
    import c13
    fb = c13.ind_job(j.unit.name[:-1], int(j.unit.name[-1]), False)   # the loop unrolled, if its contract no longer fits the code
    fb.enforce = True; fb = clone(fb)
    j.fallback, j.fallback_on_fail = fb, True
    j.canaries = [("returned", "1")]
    return j

# code that does not depend on the model is checked for one model per FMI version in the quick tier
SHARED = ("SetDebugLogging", "SerializedFMUStateSize", "SerializedFMUstateSize", "SerializeFMUState", "SerializeFMUstate", "DeserializeFMUState", "DeSerializeFMUstate", "FreeFMUState", "FreeFMUstate", "FreeInstance", "InstantiateCoSimulation",
          "GetRealStatus", "GetBooleanStatus", "GetNumberOfContinuousStates", "GetNumberOfEventIndicators")
INNER = ("calculateValues", "getContinuousStates", "setContinuousStates", "getDerivatives", "getEventIndicators", "isClose")   # verified where they are called
def wanted(j):
    fn, model = j.contract.name, j.unit.name[:-1]
    if fn in INNER: return False
    if TIER == "thorough": return True
    if fn[4:] in SHARED: return model == "BouncingBall"
    if fn[4:] in ("GetFMUState", "GetFMUstate", "SetFMUState", "SetFMUstate"): return model in ("BouncingBall", "Feedthrough", "StateSpace")
    if fn[4:] in ("GetContinuousStates", "SetContinuousStates", "GetDerivatives", "GetContinuousStateDerivatives", "GetNominalsOfContinuousStates"): return model in NX or model == "Stair"
    if fn[4:] == "GetEventIndicators": return model in NZ or model == "Stair"
    return True

def reused():
    out, seen = [], set()
    for pid in ("C03", "C04", "C05", "C09", "C11", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C23", "C01", "C02"):
        for j in registry.build(pid)[0]:
            if not j.enforce: continue
            k = (j.contract.name, j.unit.name, pid in ("C01", "C02"))
            if k in seen or any(s in j.name for s in SKIP): continue
            seen.add(k)
            if j.contract.name.endswith("DoStep") and pid == "C14": j = step_frame(j)
            j = clone(j); j.name += ".%s" % ("illegal" if pid in ("C01", "C02") else "frame")
            out.append(j)
    return out
LEDGER = ["__CPROVER_object_whole(&g_new)", "__CPROVER_object_whole(C1)", "__CPROVER_object_whole(C2)", "__CPROVER_object_whole(C3)", "na", "live0", "live1", "live2", "live3", "g_log"]
def allocating():
    """instantiation and release: every block comes from the ledger of C12"""
    out = []
    for v in (3, 2):
        for m, _ in units(v):
            js = [c12.inst_job(m, v, fn, -1) for fn in c12.FNS[v] if v == 2 or c12.supported(m, fn)] + c12.free_job(m, v)[:1]
            for j in js:
                j = clone(j); j.enforce = True; j.contract.assigns = LEDGER; j.name += ".frame"; j.canaries = [("returned", "1")]
                out.append(j)
    return out

def state_jobs():
    """serialization and release of FMU states"""
    out = []
    for v in (3, 2):
        for m, _ in units(v):
            g, s, sz, se, de, fr, _ = c09.FN[v]
            P = lambda fn, k: c09.par(v, fn, k)
            I = ["__CPROVER_object_whole(g_inst)", "g_log"]
            spec = c09.SER + c09.POOL + "static void *STP;\n#ifndef REPLAY\nvoid free(void *p) { FREED = p; nfree++; }\n#endif\n"
            pool = ["np", "nfree", "FREED"] + ["__CPROVER_object_whole(&P%d)" % k for k in range(4)]
            S = c09.base(m, v) + ["  POOL0; fill_instance(&g_buf, &IN.src); N2 = 0; STP = NULL; ST0 = &g_src; FREED = NULL;"]
            size = "  MUST(%s(%s, ST0, &N1) == %s);" % (sz, selfname(v), OKS[v])
            ok = [("succeeds", "RET == %s" % OKS[v])]
            for fn, pre, asg in ((sz, "  %s = ST0; %s = &N2;" % (P(sz, 1), P(sz, 2)), ["N2"]),
                                 (se, size + " %s = ST0; %s = (void *)&g_buf; %s = N1;" % (P(se, 1), P(se, 2), P(se, 3)), ["__CPROVER_object_whole(&g_buf)"]),
                                 (de, size + " %s = (void *)&g_buf; %s = N1; %s = &STP;" % (P(de, 1), P(de, 2), P(de, 3)), ["STP"] + pool),
                                 (fr, "  %s = &ST0;" % P(fr, 1), ["ST0", "FREED", "nfree", "g_src"])):
                j = c09.mk(m, v, fn, ".frame", [], [("returned", "1")], ok, S, pre, spec, I + asg, assigns_decide=True)
                j.ignore = (r"\bens:",)
                out.append(j)
    return out

def jobs():
    return [j for j in state_jobs() + reused() + allocating() if wanted(j)]
ASSUME = ["the preconditions of the checks whose contracts are reused (C03-C05, C09, C11, C14-C20, C22, C23 and, for refused calls, C01 and C02)", "local static variables are moved to file scope before the proof",
          "logError/logEvent bodies replaced by stubs that only count (C23 verifies the real bodies)",
          "inside the step functions and doFixedStep the model functions are replaced by stubs; their own frames are enforced by further jobs of this check",
          "variables that a callback or the C library writes are outside the proof"]
