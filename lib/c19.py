"""C19: event updates (eventUpdate of every model, fmi3UpdateDiscreteStates, fmi2NewDiscreteStates)."""
import copy
from models import *
from c17 import SMALL

# the documented tolerance relation
CLOSE0 = """static inline double sp_abs(double v) { return v >= 0 ? v : -v; }
static inline _Bool spec_close0(double a, double b) { double x = sp_abs(a), y = sp_abs(b); return sp_abs(a - b) <= 1e-5 || (!(sp_abs(a - b) > DBL_MAX) && sp_abs(a - b) <= 1e-5 * (x < y ? y : x)); }"""
# callers of isClose are verified for every symmetric relation in its place (uninterpreted); isClose itself by close_job
CLOSE = CLOSE0 + """
#ifdef REPLAY
#define spec_close spec_close0
#else
_Bool __CPROVER_uninterpreted_close(double, double);
#define spec_close(a, b) (__CPROVER_uninterpreted_close(a, b) || __CPROVER_uninterpreted_close(b, a))
bool isClose(double a, double b) { return spec_close(a, b); }
#endif"""
REM = ("logError", "logEvent", "isClose")

# expected effect of an event update on TT (a copy of the instance before the call)
RULE = {
 "BouncingBall": "if (D(h) <= 0 && D(v) < 0) { D(h) = DBL_MIN; D(v) = -D(v) * D(e); if (D(v) < 0.1) { D(v) = 0; D(g) = 0; } s->valuesOfContinuousStatesChanged = 1; } else s->valuesOfContinuousStatesChanged = 0;"
                 " s->nominalsOfContinuousStatesChanged = 0; s->terminateSimulation = 0; s->nextEventTimeDefined = 0;",
 "Stair": "if (s->nextEventTimeDefined && spec_close(s->time, s->nextEventTime)) { D(counter)++; s->nextEventTime += 1; } s->valuesOfContinuousStatesChanged = 0; s->nominalsOfContinuousStatesChanged = 0;"
          " s->terminateSimulation = D(counter) >= 10; s->nextEventTimeDefined = 1;",
 "Feedthrough": "s->valuesOfContinuousStatesChanged = 0; s->nominalsOfContinuousStatesChanged = 0; s->terminateSimulation = 0; s->nextEventTimeDefined = 0;",
}
RULE["StateSpace"] = RULE["Feedthrough"]
FAILS = {"Stair": "TT.modelData.counter > 10"}

def ens_common(model, ver, ok, err):
    fail = FAILS.get(model, "0")
    I = "g_inst"
    E = [("result", "RETV == ((%s) ? %s : %s)" % (fail, err, ok)),
         ("model-variables", "IMP(!(%s), %s)" % (fail, base_expr(model, ver, I + "->modelData.", "TT.modelData."))),
         ("values-changed", "IMP(!(%s), %s->valuesOfContinuousStatesChanged == TT.valuesOfContinuousStatesChanged)" % (fail, I)),
         ("nominals-changed", "IMP(!(%s), %s->nominalsOfContinuousStatesChanged == TT.nominalsOfContinuousStatesChanged)" % (fail, I)),
         ("terminate", "IMP(!(%s), %s->terminateSimulation == TT.terminateSimulation)" % (fail, I)),
         ("more-updates", "IMP(!(%s), %s->newDiscreteStatesNeeded == TT.newDiscreteStatesNeeded)" % (fail, I)),
         ("next-event", "IMP(!(%s), %s->nextEventTimeDefined == TT.nextEventTimeDefined && DEQ(%s->nextEventTime, TT.nextEventTime))" % (fail, I, I)),
         ("rest-unchanged", "same_id(%s, &OLD) && same_log(%s, &OLD) && same_flags(%s, &OLD) && same_limits(%s, &OLD) && same_time(%s, &OLD) && same_comm(%s, &OLD) && same_steps(%s, &OLD)" % ((I,) * 7))]
    return E, fail

def canaries(model):
    if model == "BouncingBall": return [("bounce", "OLD.modelData.h <= 0 && OLD.modelData.v < -1"), ("rest", "OLD.modelData.v < 0 && TT.modelData.v == 0"), ("none", "OLD.modelData.h > 0")]
    if model == "Stair": return [("advance", "TT.modelData.counter == OLD.modelData.counter + 1 && TT.modelData.counter < 10"), ("terminate", "TT.modelData.counter == 10"), ("fail", "TT.modelData.counter > 10"), ("none", "TT.modelData.counter == OLD.modelData.counter")]
    return [("reached", "1")]

def prep(model, ver, var):
    S = ["  __CPROVER_assume(valid_in(&IN.inst)%s); %s = (void *)mk_instance(&IN.inst); OLD = *g_inst; TT = OLD; ModelInstance *s = &TT; (void)s; %s" % (" && IN.inst.md.counter < 2147483647" if model == "Stair" else "", var, RULE.get(model, ""))]
    return S
def small(model):
    c = ["  __CPROVER_assume(small(IN.inst.time) && small(IN.inst.nextEventTime));"]
    return c + (["  __CPROVER_assume(small(IN.inst.md.h) && small(IN.inst.md.v) && small(IN.inst.md.e));"] if model == "BouncingBall" else [])

def finish(j, model):
    if model in ("BouncingBall", "Stair"):
        j.solver = "z3"; j.timeout = 100
        fb = copy.copy(j); fb.solver = None; fb.kind = "bounded"; fb.bound = "small set of numbers"; fb.name += ".small"; fb.setup = "\n".join(small(model)) + "\n" + j.setup
        j.fallback = fb
    return j

def inner_job(model, ver):
    E, fail = ens_common(model, ver, "OK", "Error")
    E.append(("mode-unchanged", "g_inst->state == OLD.state"))
    j = Job("%s%d.eventUpdate" % (model, ver), fmu_unit(model, ver), Contract("Status", "eventUpdate", [("ModelInstance *", "comp", "")], requires=["comp == g_inst"], assigns=["__CPROVER_object_whole(g_inst)", "g_log"], ensures=E),
            inputs="struct inst_in inst;", decls=inst_decls(model, ver), spec_decls="\n".join([spec_decls(model, ver, []), SMALL, CLOSE, "static ModelInstance TT;"]), setup="\n".join(prep(model, ver, "comp")), canaries=canaries(model), unwind=8, removed=REM)
    return finish(j, model)

def api3(model):
    outs = ["discreteStatesNeedUpdate", "terminateSimulation", "nominalsOfContinuousStatesChanged", "valuesOfContinuousStatesChanged", "nextEventTimeDefined"]
    fld = ["newDiscreteStatesNeeded"] + outs[1:]
    E, fail = ens_common(model, 3, "fmi3OK", "fmi3Error")
    E.append(("mode", "g_inst->state == ((%s) ? Terminated : OLD.state)" % fail))
    for k, (o, f) in enumerate(zip(outs, fld)): E.append(("reported-" + o, "IMP(!(%s) && %s != NULL, OB[%d] == TT.%s)" % (fail, o, k, f)))
    E.append(("reported-nextEventTime", "IMP(!(%s) && nextEventTime != NULL, DEQ(OT, TT.nextEventTime))" % fail))
    S = prep(model, 3, "instance") + ["  for (int k = 0; k < 5; k++) { __CPROVER_assume(IN.ob[k] <= 1); OB[k] = IN.ob[k] != 0; } OT = IN.ot;"]
    S += ["  %s = (IN.null & %d) ? NULL : &OB[%d];" % (o, 1 << k, k) for k, o in enumerate(outs)] + ["  nextEventTime = (IN.null & 32) ? NULL : &OT;"]
    j = Job("%s3.fmi3UpdateDiscreteStates" % model, fmu_unit(model, 3), Contract.of(protos(3)["fmi3UpdateDiscreteStates"], requires=["instance != NULL"], assigns=["__CPROVER_object_whole(g_inst)", "g_log", "__CPROVER_object_whole(OB)", "OT"], ensures=E),
            inputs="struct inst_in inst; uint8_t ob[5], null; double ot;", decls=inst_decls(model, 3), spec_decls="\n".join([spec_decls(model, 3, []), SMALL, CLOSE, "static ModelInstance TT; static bool OB[5]; static double OT;"]), setup="\n".join(S),
            canaries=canaries(model) + [("null", "IN.null == 63"), ("all", "IN.null == 0")], unwind=8, removed=REM)
    return finish(j, model)

def api2(model):
    E, fail = ens_common(model, 2, "fmi2OK", "fmi2Error")
    E.append(("mode", "g_inst->state == ((%s) ? Terminated : OLD.state)" % fail))
    for f in ("newDiscreteStatesNeeded", "terminateSimulation", "nominalsOfContinuousStatesChanged", "valuesOfContinuousStatesChanged", "nextEventTimeDefined"): E.append(("reported-" + f, "IMP(!(%s), EI.%s == TT.%s)" % (fail, f, f)))
    E.append(("reported-nextEventTime", "IMP(!(%s), DEQ(EI.nextEventTime, TT.nextEventTime))" % fail))
    S = prep(model, 2, "c") + ["  static fmi2EventInfo E0; EI = E0; EI.newDiscreteStatesNeeded = IN.ob[0]; EI.terminateSimulation = IN.ob[1]; EI.nominalsOfContinuousStatesChanged = IN.ob[2]; EI.valuesOfContinuousStatesChanged = IN.ob[3]; EI.nextEventTimeDefined = IN.ob[4]; EI.nextEventTime = IN.ot; %s = &EI;" % protos(2)["fmi2NewDiscreteStates"].params[1][1]]
    j = Job("%s2.fmi2NewDiscreteStates" % model, fmu_unit(model, 2), Contract.of(protos(2)["fmi2NewDiscreteStates"], requires=["c != NULL && MI->state == EventMode"], assigns=["__CPROVER_object_whole(g_inst)", "g_log", "EI"], ensures=E),
            inputs="struct inst_in inst; uint8_t ob[5]; double ot;", decls=inst_decls(model, 2), spec_decls="\n".join([spec_decls(model, 2, []), SMALL, CLOSE, "static ModelInstance TT; static fmi2EventInfo EI;"]), setup="\n".join(S), canaries=canaries(model), unwind=8, removed=REM)
    return finish(j, model)

def close_job(ver=3):
    S = "  a = IN.a; b = IN.b;"
    j = Job("isClose%d" % ver, fmu_unit("Dahlquist", ver), Contract("bool", "isClose", [("double", "a", ""), ("double", "b", "")], requires=["1"], assigns=[], ensures=[("relation", "RETV == spec_close0(a, b)")]), inputs="double a, b;", decls=inst_decls("Dahlquist", ver),
            spec_decls=SMALL + CLOSE0, setup=S, canaries=[("close", "RET"), ("apart", "!RET")], solver="cvc5", timeout=45)
    fb = copy.copy(j); fb.solver = None; fb.kind = "bounded"; fb.bound = "small set of numbers"; fb.name += ".small"; fb.setup = "  __CPROVER_assume(small(IN.a) && small(IN.b));" + S
    j.fallback = fb
    return j

def jobs():
    return [api3(m) for m, _ in units(3)] + [api2(m) for m, _ in units(2)] + [inner_job(m, v) for v in (3, 2) for m, _ in units(v) if m in EVENTS] + [close_job(3), close_job(2)]

ASSUME = ["logError/logEvent bodies replaced by stubs that only count (their real bodies are verified by C23)",
          "the instance is valid and its mode reachable; output pointers are valid or (FMI 3.0) null and distinct",
          "the stair counter is below INT_MAX before the update (it can never exceed 11)"]
