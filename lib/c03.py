"""C03: permitted mode-changing calls enter exactly the prescribed mode."""
from models import *

ISMODE = {3: "S->state == %s"}
def frame(keep_time=True, keep_comm=True, keep_limits=True, data="same_data(MI, &OLD)"):
    c = ["same_id(MI, &OLD)", "same_log(MI, &OLD)", "same_flags(MI, &OLD)", "same_steps(MI, &OLD)", "same_evt(MI, &OLD)", data]
    if keep_time: c.append("same_time(MI, &OLD)")
    if keep_comm: c.append("same_comm(MI, &OLD)")
    if keep_limits: c.append("same_limits(MI, &OLD)")
    return " && ".join(c)

def exit_target(ver):
    if ver == 3:
        return "(OLD.type == ModelExchange ? MI->state == EventMode : OLD.type == CoSimulation ? MI->state == (OLD.eventModeUsed ? EventMode : StepMode) : MI->state == ClockActivationMode)"
    return "(OLD.type == ModelExchange ? MI->state == EventMode : MI->state == StepComplete)"

def configured(model):
    """solver memory after leaving initialization/configuration mode"""
    out = []
    if model in NX: out.append(("state-count", "MI->nx == %s" % ("OLD.modelData.n" if model == "StateSpace" else NX[model])))
    if model in NZ:
        out.append(("indicator-count", "MI->nz == %d" % NZ[model]))
        out.append(("indicators-remembered", " && ".join("feq(MI->prez[%d], spec_ind(&OLD, %d))" % (i, i) for i in range(NZ[model]))))
    return out

def ind_decl(model):
    if model not in NZ: return ""
    return "static inline double spec_ind(const ModelInstance *p, size_t i) { static ModelInstance T; T = *p; ModelInstance *s = &T; spec_calc(s); switch (i) { %s default: return 0; } }" % \
        " ".join("case %d: return %s;" % (i, e) for i, e in enumerate(SPEC[model]["ind"]))

# fn -> (ensures builder, extra canaries)
def table(ver, model):
    f = frame()
    base = "same_base(MI, &OLD)"
    T = {}
    if ver == 3:
        T["fmi3EnterInitializationMode"] = ([("mode", "MI->state == InitializationMode"), ("start-time", "DEQ(MI->startTime, startTime)"), ("time", "DEQ(MI->time, startTime)"),
            ("stop-time", "stopTimeDefined ? DEQ(MI->stopTime, stopTime) : MI->stopTime == INFINITY"), ("communication-point", "DEQ(MI->nextCommunicationPoint, startTime)"),
            ("rest-unchanged", frame(False, False, False))], [("stop", "stopTimeDefined"), ("nostop", "!stopTimeDefined")])
        T["fmi3EnterConfigurationMode"] = ([("mode", "MI->state == (OLD.state == Instantiated ? ConfigurationMode : ReconfigurationMode)"), ("rest-unchanged", f)], [("inst", "OLD.state == Instantiated"), ("other", "OLD.state != Instantiated")])
        T["fmi3ExitConfigurationMode"] = ([("mode", "OLD.state == ConfigurationMode ? MI->state == Instantiated : (OLD.type == ModelExchange ? MI->state == EventMode : OLD.type == CoSimulation ? MI->state == StepMode : MI->state == ClockActivationMode)"),
            ("rest-unchanged", frame(data=base))] + configured(model), [("conf", "OLD.state == ConfigurationMode"), ("reconf", "OLD.state == ReconfigurationMode")])
        T["fmi3EnterStepMode"] = ([("mode", "MI->state == StepMode"), ("rest-unchanged", f)], [])
        T["fmi3EnterContinuousTimeMode"] = ([("mode", "MI->state == ContinuousTimeMode"), ("rest-unchanged", f)], [])
    else:
        T["fmi2SetupExperiment"] = ([("mode", "MI->state == Instantiated"), ("start-time", "DEQ(MI->startTime, startTime)"), ("time", "DEQ(MI->time, startTime)"),
            ("stop-time", "stopTimeDefined ? DEQ(MI->stopTime, stopTime) : MI->stopTime == INFINITY"), ("communication-point", "DEQ(MI->nextCommunicationPoint, startTime)"),
            ("rest-unchanged", frame(False, False, False))], [("stop", "stopTimeDefined"), ("nostop", "!stopTimeDefined")])
        T["fmi2EnterInitializationMode"] = ([("mode", "MI->state == InitializationMode"), ("rest-unchanged", f)], [])
        T["fmi2EnterContinuousTimeMode"] = ([("mode", "MI->state == ContinuousTimeMode"), ("rest-unchanged", f)], [])
    p = "fmi%d" % ver
    T[p + "ExitInitializationMode"] = ([("mode", exit_target(ver)), ("rest-unchanged", frame(data=base))] + configured(model), [("me", "OLD.type == ModelExchange")] if model != "Clocks" else [("se", "OLD.type == ScheduledExecution")])
    T[p + "EnterEventMode"] = ([("mode", "MI->state == EventMode"), ("rest-unchanged", f)], [])
    T[p + "Terminate"] = ([("mode", "MI->state == Terminated"), ("rest-unchanged", f)], [])
    T[p + "SetTime"] = ([("mode", "MI->state == OLD.state"), ("time", "DEQ(MI->time, time)"), ("rest-unchanged", frame(keep_time=False))], [])
    ok = "enterEventMode != NULL && terminateSimulation != NULL"
    T[p + "CompletedIntegratorStep"] = ([("mode", "IMP(%s, MI->state == ContinuousTimeMode)" % ok), ("results", "IMP(%s, !*enterEventMode && !*terminateSimulation)" % ok),
            ("null-results-refused", "IMP(!(%s), RETV == %s && MI->state == Terminated)" % (ok, ERR[ver])), ("rest-unchanged", f)], [("given", ok), ("missing", "!(%s)" % ok)])
    return T

def job(model, ver, fn):
    p = protos(ver)[fn]
    ens, can = table(ver, model)[fn]
    allowed = (ALLOWED3 if ver == 3 else ALLOWED2)[fn]
    allowed = [s for s in allowed if s != "ClockActivationMode" or model == "Clocks"]
    me = selfname(ver)
    inputs = ["struct inst_in inst;"]
    setup = ["  __CPROVER_assume(valid_in(&IN.inst)); %s = (void *)mk_instance(&IN.inst);" % me]
    assigns = ["__CPROVER_object_whole(g_inst)", "g_log"]
    spec = [spec_decls(model, ver, []), ind_decl(model)]
    for t, n, s in p.params:
        if n == me: continue
        if "*" in t or s:
            spec.append("static %s buf_%s;" % (t.replace("*", "").replace("const", "").strip(), n))
            inputs.append("uint8_t null_%s, b_%s;" % (n, n))
            setup.append("  __CPROVER_assume(IN.null_%s <= 1 && IN.b_%s <= 1); buf_%s = IN.b_%s; %s = IN.null_%s ? NULL : &buf_%s;" % (n, n, n, n, n, n, n))
            assigns.append("buf_" + n)
        elif "oolean" in t:
            inputs.append("uint8_t a_%s;" % n); setup.append("  __CPROVER_assume(IN.a_%s <= 1); %s = IN.a_%s;" % (n, n, n))
        else:
            inputs.append("double a_%s;" % n); setup.append("  %s = IN.a_%s;" % (n, n))
    setup.append("  OLD = *g_inst;")
    req = ["%s != NULL && %s" % (me, mode_in(allowed, "MI->state"))]
    if not fn.endswith("CompletedIntegratorStep"): ens = [("succeeds", "RETV == %s" % OKS[ver])] + ens
    else: ens = [("succeeds", "IMP(enterEventMode != NULL && terminateSimulation != NULL, RETV == %s)" % OKS[ver])] + ens
    can = [("mode-%s" % s, "OLD.state == %s" % s) for s in allowed] + can
    heavy = fn.endswith(("ExitInitializationMode", "ExitConfigurationMode"))
    if model == "Resource" and heavy:       # calculating the output reads a file, which may fail
        ens = [(n, "IMP(RETV == %s, %s)" % (OKS[ver], e)) for n, e in ens if n != "succeeds"] + [("failure-terminates", "IMP(RETV != %s, MI->state == Terminated)" % OKS[ver])]
    j = Job("%s%d.%s" % (model, ver, fn), fmu_unit(model, ver), Contract.of(p, requires=req, assigns=assigns, ensures=ens), inputs="\n".join(inputs),
               decls=inst_decls(model, ver), spec_decls="\n".join(spec), setup="\n".join(setup), canaries=can, unwind=6 if heavy else 2)
    if model == "Roberts" and heavy: j.solver = "z3"
    if model in ("StateSpace", "Resource") and heavy: j.replace = [calc_frame(model)]
    if heavy and model == "Feedthrough": j.unwindset = ["strncpy.0:130"]; j.weight = 9
    return j

def jobs():
    out = []
    for ver in (3, 2):
        for m, v in units(ver):
            for fn in table(ver, m):
                heavy = fn.endswith(("ExitInitializationMode", "ExitConfigurationMode"))
                if TIER != "thorough" and not heavy and m not in ("BouncingBall", "Clocks"): continue
                if not [s for s in (ALLOWED3 if ver == 3 else ALLOWED2)[fn] if s != "ClockActivationMode" or m == "Clocks"]: continue
                out.append(job(m, v, fn))
    return out

ASSUME = ["logError/logEvent bodies replaced by stubs that only count (their real bodies are verified by C23)",
          "instance memory was obtained from instantiation (valid object), the mode is one the FMU can reach and the model variables satisfy the data invariant (booleans 0/1, string terminated, sizes and dimensions within their limits)",
          "arguments that are results of completed integrator step are null or valid and distinct"]
