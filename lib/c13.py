"""C13-C15: co-simulation steps (fmi3DoStep, fmi2DoStep) and the FMI 2.0 status queries."""
import copy
from models import *
from c17 import SMALL
import c19, c16

K = 4 if TIER == "thorough" else 2
P3 = "currentCommunicationPoint communicationStepSize".split()

def stubs(model, ver):
    """doFixedStep, eventUpdate and getEventIndicators replaced by their contracts over arbitrary results; every call is compared with the expected sequence of calls"""
    ev, nz = model in EVENTS, NZ.get(model, 0)
    L = ["static double T[%d]; static uint8_t SEV[%d], TEV[%d], TM[%d], SF[%d], EF[%d]; static int tr[%d], ntr, wtr[%d], nwtr; static int ks, ke;" % ((K + 1,) * 3 + (2 * K + 2, K + 1, 2 * K + 2) + (4 * K + 4,) * 2),
         "static Status stub_step(ModelInstance *s, bool *se, bool *te, int k) { s->nSteps++; s->time = T[k]; *se = SEV[k]; *te = TEV[k]; return SF[k] ? Error : OK; }",
         "static Status stub_event(ModelInstance *s, int k) { s->terminateSimulation = TM[k] != 0; s->isDirtyValues = true; return EF[k] ? Error : OK; }",
         "#ifndef REPLAY",
         "Status doFixedStep(ModelInstance *comp, bool *stateEvent, bool *timeEvent) { __CPROVER_assert(comp == g_inst && ntr < nwtr && wtr[ntr] == 1, \"ens:internal-step-expected\"); __CPROVER_assume(ntr < nwtr); ntr++; ks++; return stub_step(comp, stateEvent, timeEvent, ks - 1); }"]
    if ev: L.append("Status eventUpdate(ModelInstance *comp) { __CPROVER_assert(comp == g_inst && ntr < nwtr && wtr[ntr] == 2, \"ens:event-update-expected\"); __CPROVER_assume(ntr < nwtr); ntr++; ke++; return stub_event(comp, ke - 1); }")
    if nz: L.append("Status getEventIndicators(ModelInstance *comp, double z[], size_t nz) { __CPROVER_assert(comp == g_inst && z == comp->prez && nz == comp->nz, \"ens:indicators-refreshed\"); return OK; }")
    L.append("#endif")
    return "\n".join(L)

def spec_run(model, ver):
    ev, nz = model in EVENTS, NZ.get(model, 0)
    st = STEP[model]
    L = ["#ifdef REPLAY", "#define S_STEP doFixedStep(s, &se, &te)", "#define S_EVENT eventUpdate(s)", "#else", "#define S_STEP (wtr[nwtr++] = 1, k1++, stub_step(s, &se, &te, k1 - 1))", "#define S_EVENT (wtr[nwtr++] = 2, k2++, stub_event(s, k2 - 1))", "#endif",
         "static bool W_ehn, W_reached, W_early, W_done, W_fail, W_term;",
         "static inline void spec_run(ModelInstance *s, double ccp, double h) { int k1 = 0, k2 = 0; (void)k1; (void)k2; double ncp = ccp + h; bool se = 0, te = 0; W_ehn = W_reached = W_done = W_fail = W_term = 0;"]
    guard = "W_reached = s->time + (%s) > ncp && !spec_close(s->time + (%s), ncp);" % (st, st)
    ef = "if (S_EVENT != OK) { W_fail = W_done = 1; return; }"
    for i in range(K + 1):
        L.append("  %s if (W_reached%s) { W_done = 1; return; }" % (guard, " || (W_ehn && s->earlyReturnAllowed)" if ver == 3 else ""))
        if i == K: break
        if ver == 3:
            if ev: L.append("  if (W_ehn) { %s W_ehn = 0; }" % ef)
            L.append("  if (S_STEP != OK) { W_fail = W_done = 1; return; }")
            if ev: L.append("  if (se || te) { if (s->eventModeUsed) W_ehn = 1; else { %s %s } if (s->earlyReturnAllowed) { W_done = 1; return; } }" % (ef, "\n#ifdef REPLAY\n getEventIndicators(s, s->prez, s->nz);\n#endif\n" if nz else ""))
            L.append("  if (s->terminateSimulation) { W_done = 1; return; }")
        else:
            L.append("  if (S_STEP != OK) { W_fail = W_done = 1; return; }")
            if ev: L.append("  if (se || te) { %s }" % ef)
            L.append("  if (s->terminateSimulation) { W_term = W_done = 1; return; }")
    L.append("}")
    return "\n".join(L)

def setup(model, ver):
    me = selfname(ver)
    nz, nx = NZ.get(model, 0), NX.get(model, 0)
    S = ["  __CPROVER_assume(valid_in(&IN.inst)); %s = (void *)mk_instance(&IN.inst); OLD = *g_inst; currentCommunicationPoint = IN.ccp; communicationStepSize = IN.h;" % me]
    if ver == 3: S += ["  for (int k = 0; k < 3; k++) __CPROVER_assume(IN.b[k] <= 1); OB[0] = IN.b[0] != 0; OB[1] = IN.b[1] != 0; OB[2] = IN.b[2] != 0; OT = IN.ot; eventHandlingNeeded = &OB[0]; terminateSimulation = &OB[1]; earlyReturn = &OB[2]; lastSuccessfulTime = &OT;"]
    S += ["  noSetFMUStatePriorToCurrentPoint = IN.nos != 0;"]
    return S
DECL = "static bool OB[3]; static double OT; static ModelInstance TT;"
INPUTS = "struct inst_in inst; double ccp, h, ot; uint8_t b[3], nos, sev[%d], tev[%d], tm[%d], sf[%d], ef[%d]; double t[%d];" % (K + 1, K + 1, 2 * K + 2, K + 1, 2 * K + 2, K + 1)
VALID = "spec_close(IN.ccp, OLD.nextCommunicationPoint) && IN.h > 0 && !(IN.ccp + IN.h > OLD.stopTime && !spec_close(IN.ccp + IN.h, OLD.stopTime))"

def mk(model, ver, name, req, ens, can, S, spec, rem, **kw):
    fn = "fmi3DoStep" if ver == 3 else "fmi2DoStep"
    me = selfname(ver)
    asg = ["__CPROVER_object_whole(g_inst)", "g_log", "ntr", "ks", "ke"] + (["__CPROVER_object_whole(OB)", "OT"] if ver == 3 else [])
    asg = [a for a in asg if a not in ("ntr", "ks", "ke") or "ntr" in spec]
    return Job("%s%d.%s%s" % (model, ver, fn, name), fmu_unit(model, ver), Contract.of(protos(ver)[fn], requires=["%s != NULL && MI->state == %s" % (me, "StepMode" if ver == 3 else "StepComplete")] + req, assigns=asg, ensures=ens),
               inputs=INPUTS, decls=inst_decls(model, ver), spec_decls=spec_decls(model, ver, []) + "\n" + c19.CLOSE + "\n" + DECL + "\n" + spec, setup="\n".join(S), canaries=can, removed=rem, solver="z3", timeout=120, **kw)

def refused_job(model, ver):
    ens = [("refused", "RETV == %s && MI->state == Terminated" % ERR[ver]), ("nothing-advanced", "same_all(MI, &OLD)")]
    can = [("wrong-point", "IN.h > 0"), ("size-zero", "IN.h == 0"), ("size-negative", "IN.h < 0"), ("size-nan", "IN.h != IN.h"), ("beyond-stop", "IN.h > 0 && spec_close(IN.ccp, OLD.nextCommunicationPoint)")]
    S = setup(model, ver)
    # the internal step must be unreachable
    st = "#ifndef REPLAY\nStatus doFixedStep(ModelInstance *comp, bool *stateEvent, bool *timeEvent) { (void)comp; (void)stateEvent; (void)timeEvent; __CPROVER_assert(0, \"ens:no-internal-step\"); __CPROVER_assume(0); return OK; }\n#endif"
    return mk(model, ver, ".refused", ["!(%s)" % VALID], ens, can, S, st, c19.REM + ("doFixedStep",), unwind=3)

def accepted_job(model, ver):
    S = setup(model, ver)
    st = "#ifndef REPLAY\nStatus doFixedStep(ModelInstance *comp, bool *stateEvent, bool *timeEvent) { (void)comp; (void)stateEvent; (void)timeEvent; __CPROVER_assume(0); return OK; }\n#endif"
    return mk(model, ver, ".accepted", [VALID], [("accepted", "RETV == %s && MI->state == OLD.state" % OKS[ver])], [("reached", "1")], S, st, c19.REM + ("doFixedStep",), unwind=3)

def step_job(model, ver, tier15):
    S = setup(model, ver)
    ev, nz = model in EVENTS, NZ.get(model, 0)
    S += ["  for (int k = 0; k <= %d; k++) { __CPROVER_assume(IN.sev[k] <= 1 && IN.tev[k] <= 1 && IN.sf[k] <= 1); T[k] = IN.t[k]; SEV[k] = IN.sev[k]; TEV[k] = IN.tev[k]; SF[k] = IN.sf[k]; }" % K, "  for (int k = 0; k < %d; k++) { __CPROVER_assume(IN.tm[k] <= 1 && IN.ef[k] <= 1); TM[k] = IN.tm[k]; EF[k] = IN.ef[k]; }" % (2 * K + 2),
          "  ntr = nwtr = ks = ke = 0; TT = OLD; if (%s) spec_run(&TT, IN.ccp, IN.h); __CPROVER_assume(W_done);" % VALID]
    good = "!W_fail && !W_term"
    E = [("internal-error-reported", "IMP(W_fail, RETV == %s && MI->state == Terminated)" % ERR[ver]), ("status", "IMP(%s, RETV == %s && MI->state == OLD.state)" % (good, OKS[ver])),
         ("time", "IMP(!W_fail, DEQ(MI->time, TT.time) && MI->nSteps == TT.nSteps)")]
    if ver == 3:
        E += [("next-communication-point", "IMP(%s, DEQ(MI->nextCommunicationPoint, W_reached ? IN.ccp + IN.h : TT.time))" % good), ("last-successful-time", "IMP(%s, DEQ(OT, TT.time))" % good), ("event-handling-needed", "IMP(%s, OB[0] == W_ehn)" % good),
              ("terminate", "IMP(%s, OB[1] == TT.terminateSimulation)" % good), ("early-return", "IMP(%s, OB[2] == (OLD.earlyReturnAllowed && !W_reached))" % good)]
    else:
        E += [("next-communication-point", "DEQ(MI->nextCommunicationPoint, %s ? IN.ccp + IN.h : OLD.nextCommunicationPoint)" % "(%s)" % good), ("discard-on-termination", "IMP(W_term, RETV == fmi2Discard && MI->state == OLD.state)")]
    E += [("all-steps-done", "IMP(!W_fail, ALLDONE)"), ("terminate-flag", "IMP(!W_fail, MI->terminateSimulation == TT.terminateSimulation)"),
          ("rest-unchanged", "same_id(MI, &OLD) && same_log(MI, &OLD) && same_flags(MI, &OLD) && same_limits(MI, &OLD)")]
    spec = stubs(model, ver) + "\n" + spec_run(model, ver) + "\n#ifdef REPLAY\n#define ALLDONE 1\n#else\n#define ALLDONE (ntr == nwtr)\n#endif"
    can = [("two-steps", "nwtr >= 2"), ("no-step", "nwtr == 0 && W_done")] + ([("event", "ke > 0")] if ev else [])
    if ver == 3 and ev: can += [("early", "OLD.earlyReturnAllowed && !W_reached"), ("event-mode", "W_ehn")]
    j = mk(model, ver, "", [VALID], E, can, S, spec, c19.REM + ("doFixedStep",) + (("eventUpdate",) if ev else ()) + (("getEventIndicators",) if nz else ()), unwind=2 * K + 4, kind="bounded")
    j.bound = "at most %d internal steps per call" % K
    return j

# ---- the same by induction over the stepping loop (any number of internal steps)
# g_a: 0 running, 1 event pending (event mode), 2 the step has to end here, 3 event has to be handled now, 4 an internal call failed
def ind_stubs(model, ver):
    ev, nz = model in EVENTS, NZ.get(model, 0)
    st = STEP[model]
    L = ["static int g_a; static bool g_pend; static double NCP; uint8_t nondet_u8(void); double nondet_double(void); uint64_t nondet_u64(void);",
         "#define REACHED(t) ((t) + (%s) > NCP && !spec_close((t) + (%s), NCP))" % (st, st),
         "#ifndef REPLAY",
         "Status doFixedStep(ModelInstance *comp, bool *stateEvent, bool *timeEvent) {",
         "  __CPROVER_assert(comp == g_inst && g_a == 0 && !g_pend && !REACHED(comp->time), \"ens:internal-step-expected\");",
         "  comp->nSteps++; comp->time = nondet_double(); bool se = nondet_u8() & 1, te = nondet_u8() & 1; *stateEvent = se; *timeEvent = te;",
         "  if (nondet_u8() & 1) { g_a = 4; return Error; }"]
    if ev and ver == 3: L.append("  if (se || te) { if (comp->eventModeUsed) { g_pend = 1; g_a = comp->earlyReturnAllowed ? 2 : 1; } else g_a = 3; }")
    elif ev: L.append("  if (se || te) g_a = 3;")
    L += ["  if (comp->terminateSimulation && g_a != 3) g_a = 2;", "  return OK; }"]
    if ev:
        L += ["Status eventUpdate(ModelInstance *comp) {",
              "  __CPROVER_assert(comp == g_inst && (g_a == 3 || (g_a == 1 && !REACHED(comp->time))), \"ens:event-update-expected\");",
              "  comp->terminateSimulation = nondet_u8() & 1; comp->isDirtyValues = true;",
              "  if (nondet_u8() & 1) { g_a = 4; return Error; }"]
        if ver == 3: L += ["  if (g_a == 1) { g_a = 0; g_pend = 0; } else g_a = comp->earlyReturnAllowed || comp->terminateSimulation ? 2 : 0;"]
        else: L += ["  g_a = comp->terminateSimulation ? 2 : 0;"]
        L += ["  return OK; }"]
    if nz: L.append("Status getEventIndicators(ModelInstance *comp, double z[], size_t nz) { __CPROVER_assert(comp == g_inst && z == comp->prez && nz == comp->nz, \"ens:indicators-refreshed\"); return OK; }")
    L.append("#endif")
    return "\n".join(L)

def ind_job(model, ver, ind=True):
    S = setup(model, ver) + ["  g_a = 0; g_pend = 0; NCP = IN.ccp + IN.h;"]
    ev, nz = model in EVENTS, NZ.get(model, 0)
    fn = "fmi3DoStep" if ver == 3 else "fmi2DoStep"
    done = "(g_a == 2 || ((g_a == 0 || g_a == 1) && REACHED(MI->time)))"
    reached = "((g_a == 0 || g_a == 1) && REACHED(MI->time))"
    E = [("internal-error-reported", "IMP(g_a == 4, RETV == %s && MI->state == Terminated)" % ERR[ver]), ("ends-when-due", "IMP(g_a != 4, %s)" % done)]
    good = "g_a != 4" if ver == 3 else "(g_a != 4 && g_a != 2)"
    E += [("status", "IMP(%s, RETV == %s && MI->state == OLD.state)" % (good, OKS[ver]))]
    if ver == 3:
        E += [("next-communication-point", "IMP(%s, DEQ(MI->nextCommunicationPoint, %s ? IN.ccp + IN.h : MI->time))" % (good, reached)), ("last-successful-time", "IMP(%s, DEQ(OT, MI->time))" % good), ("event-handling-needed", "IMP(%s, OB[0] == g_pend)" % good),
              ("terminate", "IMP(%s, OB[1] == MI->terminateSimulation)" % good), ("early-return", "IMP(%s, OB[2] == (OLD.earlyReturnAllowed && !%s))" % (good, reached))]
    else:
        E += [("next-communication-point", "DEQ(MI->nextCommunicationPoint, %s ? IN.ccp + IN.h : OLD.nextCommunicationPoint)" % good), ("discard-on-termination", "IMP(g_a == 2, RETV == fmi2Discard && MI->state == OLD.state)")]
    E += [("rest-unchanged", "same_id(MI, &OLD) && same_log(MI, &OLD) && same_flags(MI, &OLD) && same_limits(MI, &OLD)")]
    spec = ind_stubs(model, ver)
    can = [("end-reached", reached), ("failed", "g_a == 4")] + ([("stopped", "g_a == 2")] if ev else [])
    j = mk(model, ver, ".inductive" if ind else ".unrolled", [VALID], E, can, S, spec, c19.REM + ("doFixedStep",) + (("eventUpdate",) if ev else ()) + (("getEventIndicators",) if nz else ()), unwind=14 if ind else 3, **({} if ind else {"kind": "bounded", "enforce": False}))
    j.contract.assigns += ["g_a", "g_pend"]
    if not ind:
        j.bound = "at most 5 internal steps per call, times from a small set"; j.solver = None; j.max_unwind = 6
        j.spec_decls = j.spec_decls.replace("comp->time = nondet_double()", "comp->time = pick(nondet_u8())") + "\nstatic inline _Bool small(double v) { return v == 0.0 || v == 1.0 || v == 2.5 || v == 4.0; }"
        j.spec_decls = "static double pick(unsigned char k) { return k == 0 ? 0.0 : k == 1 ? 1.0 : k == 2 ? 2.5 : k == 3 ? 3.0 : 9.0; }\n" + j.spec_decls
        j.setup = j.setup + "\n  __CPROVER_assume(small(IN.inst.time) && small(IN.ccp) && small(IN.h) && small(IN.inst.stopTime) && small(IN.inst.nextCommunicationPoint) && small(IN.inst.startTime));"
        return j
    I = "g_inst->"
    keep = ["%sstate == OLD.state" % I, "status == 0"]
    if ver == 3:
        keep += ["OB[0] == g_pend", "(g_a == 0 || g_a == 1)", "g_pend == (g_a == 1)", "(g_a == 0 || (%searlyReturnAllowed == 0 && %seventModeUsed != 0))" % (I, I)]
    else: keep += ["g_a == 0", "!g_pend"]
    if not ev: keep += ["g_a == 0"]
    asg = "status, g_inst->time, g_inst->nSteps, g_inst->terminateSimulation, g_inst->isDirtyValues, g_inst->state, g_log, g_a, g_pend" + (", nextCommunicationPointReached, OB[0]" if ver == 3 else "")
    j.loop_contracts = loop_contract(fn, asg, " && ".join("(%s)" % k for k in keep), ["status"] + (["nextCommunicationPointReached"] if ver == 3 else []))
    j.fallback = ind_job(model, ver, False); j.fallback_on_fail = True; j.z3_time = 110
    return j

def status_jobs(model):
    out = []
    for fn, t, want, ok in (("fmi2GetRealStatus", "double", "DEQ(V, OLD.time)", "fmi2LastSuccessfulTime"), ("fmi2GetBooleanStatus", "int", "V == OLD.terminateSimulation", "fmi2Terminated")):
        p = protos(2)[fn]
        S = "  __CPROVER_assume(valid_in(&IN.inst) && IN.s <= 3); c = (void *)mk_instance(&IN.inst); OLD = *g_inst; V = IN.v; %s = (fmi2StatusKind)IN.s; %s = &V;" % (p.params[1][1], p.params[2][1])
        out.append(Job("%s2.%s" % (model, fn), fmu_unit(model, 2), Contract.of(p, requires=["c != NULL && (MI->state == StepComplete || MI->state == Terminated)"], assigns=["__CPROVER_object_whole(g_inst)", "V", "g_log"],
            ensures=[("value", "IMP(IN.s == %s, RETV == fmi2OK && %s)" % (ok, want)), ("others-discarded", "IMP(IN.s != %s, RETV == fmi2Discard)" % ok), ("unchanged", "same_all(MI, &OLD) && MI->state == OLD.state")]),
            inputs="struct inst_in inst; uint8_t s; %s v;" % t, decls=inst_decls(model, 2), spec_decls="static %s V;" % t, setup=S, canaries=[("asked", "IN.s == %s" % ok), ("other", "IN.s != %s" % ok)]))
    return out

CS3 = [m for m, _ in units(3) if m != "Clocks"]
CS2 = [m for m, _ in units(2)]
def jobs13(): return [f(m, v) for f in (refused_job, accepted_job) for v, ms in ((3, CS3), (2, CS2)) for m in ms] + [c19.close_job(3), c19.close_job(2)]
def jobs14():
    ms = [(m, 3) for m in CS3] + [(m, 2) for m in CS2]
    return [ind_job(m, v) for m, v in ms] + [c16.step_job(m, v) for m, v in ms] + [c19.close_job(3), c19.close_job(2)]
def jobs15():
    ms = [(m, 3) for m in CS3] + [(m, 2) for m in CS2]
    return [ind_job(m, v) for m, v in ms] + [c19.inner_job(m, v) for m, v in ms if m in EVENTS] + [c16.event_job(m, v) for m, v in ms if m in EVENTS] + sum([status_jobs(m) for m in CS2], [])

ASSUME = ["logError/logEvent bodies replaced by stubs that only count (their real bodies are verified by C23)",
          "isClose is replaced by an arbitrary symmetric relation in the step functions; its real body is discharged against the documented tolerance by a separate job",
          "inside the step functions doFixedStep, eventUpdate and getEventIndicators are replaced by stubs with arbitrary results (time, events, termination, failure); their real bodies are discharged by C16, C19 and C18 (the event detection of an internal step and eventUpdate also by further jobs of C15)",
          "output pointers of fmi3DoStep are valid and distinct", "callbacks do not call back into the FMU during a step"]
