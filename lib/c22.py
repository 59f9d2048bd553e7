"""C22: clocks of the Clocks model."""
from models import *
import lists
M, V = "Clocks", 3
UNIT = lambda: fmu_unit(M, V)
ASG = ["__CPROVER_object_whole(g_inst)", "g_log", "g_iu", "g_cu", "g_lock", "g_unlock", "g_depth", "g_env_seen"]
ASGP = ASG + ["AL", "AU"]
ADD = "static inline int wadd(int a, int b) { return (int)((unsigned)a + (unsigned)b); }"
D = "MI->modelData."; O = "OLD.modelData."
KEEP = "same_id(MI, &OLD) && same_log(MI, &OLD) && same_flags(MI, &OLD) && same_limits(MI, &OLD) && same_time(MI, &OLD) && same_comm(MI, &OLD) && same_steps(MI, &OLD) && same_evt(MI, &OLD)"
def unch(*fields): return " && ".join("DEQ(%s%s, %s%s)" % (D, f, O, f) if f.endswith("interval") else "%s%s == %s%s" % (D, f, O, f) for f in fields)
ALLF = "inClock3_interval inClock3_qualifier outClock inClock1Ticks inClock2Ticks inClock3Ticks totalInClockTicks result2 input2 output3".split()

# what the lock callbacks see of the variables that several model partitions share
SHARED = ("totalInClockTicks", "outClock", "result2", "input2")
def decls():
    d = inst_decls(M, V)
    for a, b, n in (("g_lock++; g_depth++;", "cb_lock", "AL"), ("g_unlock++; g_depth--;", "cb_unlock", "AU")):
        assert d.count(a) == 1
        d = d.replace(a, a + " hook_%s();" % n).replace("static void %s(void)" % b, "static ModelData %s; static void hook_%s(void);\nstatic void %s(void)" % (n, n, b), 1)
    return d + "\nstatic void hook_AL(void) { AL = g_inst->modelData; }\nstatic void hook_AU(void) { AU = g_inst->modelData; }\n"

def base():
    return ["  __CPROVER_assume(valid_in(&IN.inst) && (IN.inst.md.outClock == 0 || IN.inst.md.outClock == 1)); instance = (void *)mk_instance(&IN.inst); OLD = g_obj;"]

def part_job(vr):
    """vr: 1001..1003, or None for every other clock"""
    fn = "fmi3ActivateModelPartition"
    S = base() + ["  __CPROVER_assume(%s); clockReference = %s; activationTime = IN.t; __CPROVER_assume(IN.t > -2e9 && IN.t < 2e9);" % (mode_in(ALLOWED3[fn], "g_obj.state"), "%d" % vr if vr else "IN.vr")]
    if not vr:
        S.append("  __CPROVER_assume(IN.vr != 1001 && IN.vr != 1002 && IN.vr != 1003);")
        E = [("refused", "RETV == fmi3Error && MI->state == Terminated"), ("nothing-done", unch(*ALLF) + " && " + KEEP + " && g_cu == 0 && g_lock == 0 && g_unlock == 0")]
    else:
        own = "inClock%dTicks" % (vr - 1000)
        out = "(!OLD.modelData.outClock && %stotalInClockTicks %% 5 == 0)" % D
        E = [("succeeds", "RETV == fmi3OK && MI->state == OLD.state"), ("own-ticks", "%s%s == wadd(%s%s, 1)" % (D, own, O, own)), ("total-ticks", "%stotalInClockTicks == wadd(%stotalInClockTicks, 1)" % (D, O)),
             ("other-ticks", unch(*[f for f in ("inClock1Ticks", "inClock2Ticks", "inClock3Ticks") if f != own])), ("output-clock", "%soutClock == %s" % (D, out))]
        if vr == 1001: E += [("interval-armed", "IN.t >= 4 && IN.t < 5 ? %sinClock3_qualifier == 2 && %sinClock3_interval == 0 : %s" % (D, D, unch("inClock3_qualifier", "inClock3_interval")))]
        else: E += [("interval-unchanged", unch("inClock3_qualifier", "inClock3_interval"))]
        if vr == 1002: E += [("input-accumulated", "%sresult2 == wadd(%sresult2, %sinput2) && %sinput2 == 0" % (D, O, O, D))]
        else: E += [("input-untouched", unch("result2", "input2"))]
        E += [("output3", "%soutput3 == %s" % (D, "1000" if vr == 1003 else O + "output3"))]
        due = "(%soutClock%s)" % (D, " || %sinClock3_qualifier == 2" % D if vr == 1001 else "")
        E += [("notified-when-due", "g_cu == (IN.inst.hasCU && %s ? 1 : 0)" % due), ("notified-with-environment", "IMP(g_cu > 0, g_env_seen == (void *)&g_env)")]
        n = 0 if vr == 1001 else 1
        E += [("locked", "g_lock == (IN.inst.hasLock ? %d : 0) && g_unlock == (IN.inst.hasUnlock ? %d : 0)" % (n, n)), ("rest-unchanged", KEEP)]
        if n: E += [("changed-only-while-locked", "IMP(IN.inst.hasLock, %s) && IMP(IN.inst.hasUnlock, %s)" % (" && ".join("AL.%s == %s%s" % (f, O, f) for f in SHARED), " && ".join("AU.%s == %s%s" % (f, D, f) for f in SHARED)))]
    can = [("done", "1")] + ([("tick", "%soutClock" % D), ("notified", "g_cu == 1")] if vr else [])
    j = Job("Clocks3.%s.%s" % (fn, vr or "other"), UNIT(), Contract.of(protos(V)[fn], requires=["instance != NULL"], assigns=ASGP, ensures=E), inputs="struct inst_in inst; double t; uint32_t vr;", decls=decls(), spec_decls=ADD, setup="\n".join(S), canaries=can, unwind=14 if vr == 1003 else 4)
    if vr == 1003:
        import copy
        fb = copy.copy(j); fb.name += ".plain"; fb.unwind = 4
        j.loop_contracts = loop_contract("activateModelPartition3", "loop, sum", "loop >= 1 && loop <= 1000000000", ["loop", "sum"], 0)
        j.fallback = fb; j.fallback_on_fail = False
    return j

def get_job(fn, n):
    iv = fn.endswith("Decimal")
    S = base() + ["  for (int i = 0; i < %d; i++) { VR[i] = IN.vr[i]; B[i] = 0; Q[i] = 7; IV[i] = IN.iv[i]; } valueReferences = VR; nValueReferences = %d; %s" % (n, n, "intervals = IV; qualifiers = Q;" if iv else "values = B;")]
    good = "1005" if not iv else "1003"
    ok = " && ".join("VR[%d] == %s" % (i, good) for i in range(n))
    E = [("accepted", "IMP(%s, RETV == fmi3OK && MI->state == OLD.state)" % ok), ("refused", "IMP(!(%s), RETV == fmi3Error && MI->state == Terminated)" % ok)]
    if iv:
        E += [("qualifier", "IMP(%s, Q[0] == %sinClock3_qualifier)" % (ok, O)), ("interval", "IMP(%s && %sinClock3_qualifier == 2, DEQ(IV[0], %sinClock3_interval))" % (ok, O, O)),
              ("reported-once", "IMP(%s, %sinClock3_qualifier == (%sinClock3_qualifier == 2 ? 1 : %sinClock3_qualifier))" % (ok, D, O, O)), ("rest-unchanged", unch(*[f for f in ALLF if f != "inClock3_qualifier"]))]
        if n == 2: E += [("second", "IMP(%s, Q[1] == (%sinClock3_qualifier == 2 ? 1 : %sinClock3_qualifier) && DEQ(IV[1], IN.iv[1]))" % (ok, O, O))]
    else:
        E += [("value", "IMP(%s, B[0] == (%soutClock != 0))" % (ok, O)), ("cleared", "IMP(%s, !%soutClock)" % (ok, D)), ("rest-unchanged", unch(*[f for f in ALLF if f != "outClock"]))]
        if n == 2: E += [("second", "IMP(%s, !B[1])" % ok)]
    E += [("refused-changes-nothing", "IMP(VR[0] != %s, %s)" % (good, unch(*ALLF))), ("instance-unchanged", KEEP)]
    return Job("Clocks3.%s.%d" % (fn, n), UNIT(), Contract.of(protos(V)[fn], requires=["instance != NULL"], assigns=ASG + ["__CPROVER_object_whole(B)", "__CPROVER_object_whole(Q)", "__CPROVER_object_whole(IV)"], ensures=E),
               inputs="struct inst_in inst; uint32_t vr[%d]; double iv[%d];" % (n, n), decls=inst_decls(M, V), spec_decls="static fmi3ValueReference VR[%d]; static _Bool B[%d]; static fmi3IntervalQualifier Q[%d]; static double IV[%d];" % (n, n, n, n), setup="\n".join(S), canaries=[("ok", ok), ("bad", "!(%s)" % ok)], unwind=6, kind="bounded")

def set_job(n):
    fn = "fmi3SetClock"
    S = base() + ["  for (int i = 0; i < %d; i++) { __CPROVER_assume(IN.b[i] <= 1); VR[i] = IN.vr[i]; B[i] = IN.b[i]; } valueReferences = VR; nValueReferences = %d; values = B;" % (n, n)]
    known = " && ".join("(!B[%d] || VR[%d] == 1001 || VR[%d] == 1002 || VR[%d] == 1003)" % (i, i, i, i) for i in range(n))
    E = [("accepted", "IMP(%s, RETV == fmi3OK && MI->state == OLD.state)" % known), ("nothing-else", unch(*ALLF) + " && " + KEEP)]
    return Job("Clocks3.%s.%d" % (fn, n), UNIT(), Contract.of(protos(V)[fn], requires=["instance != NULL"], assigns=ASG, ensures=E), inputs="struct inst_in inst; uint32_t vr[%d]; uint8_t b[%d];" % (n, n), decls=inst_decls(M, V),
               spec_decls="static fmi3ValueReference VR[%d]; static _Bool B[%d];" % (n, n), setup="\n".join(S), canaries=[("ok", known)], unwind=6, kind="bounded")

def jobs():
    out = [part_job(v) for v in (1001, 1002, 1003, None)] + [get_job(f, n) for f in ("fmi3GetClock", "fmi3GetIntervalDecimal") for n in (1, 2)] + [set_job(1), set_job(2)]
    for k, f in (("get", lambda: get_job("fmi3GetClock", 2)), ("interval", lambda: get_job("fmi3GetIntervalDecimal", 2)), ("set", lambda: set_job(2))): out.append(lists.deep(lambda k=k: lists.clock_job(k), 10, f))
    for j in out:
        if j.kind == "bounded": j.bound = "at most 2 clock references"
    return out

ASSUME = ["callbacks return and do not call back into the FMU", "the activation time is within the range of int (the code converts it)", "the output clock variable holds 0 or 1",
          "logError/logEvent bodies replaced by stubs that only count (their real bodies are verified by C23)"]
