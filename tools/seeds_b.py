import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
H3 = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include "config.h"\n#include "model.h"\n#include "fmi3Functions.h"\n#define CHECK(c) do { if (!(c)) { printf("FAILED line %d\\n", __LINE__); return 1; } } while (0)\n'
H2 = H3.replace("fmi3Functions", "fmi2Functions")
ME = 'fmi3InstantiateModelExchange("a", INSTANTIATION_TOKEN, NULL, 0, 0, NULL, NULL)'
def CS(ev=0, er=0): return 'fmi3InstantiateCoSimulation("a", INSTANTIATION_TOKEN, NULL, 0, 0, %d, %d, NULL, 0, NULL, NULL, NULL)' % (ev, er)
INIT = "CHECK(fmi3EnterInitializationMode(s, 0, 0, 0, 0, 0) == fmi3OK); CHECK(fmi3ExitInitializationMode(s) == fmi3OK);"
def main(body, h=H3): return h + "int main(void) {\n" + body + "\n  return 0; }\n"
CO = "src/cosimulation.c"; F3 = "src/fmi3Functions.c"; F2 = "src/fmi2Functions.c"

seed("c03-exit-reconfig-event", "C03", "co-simulation instance with event mode leaves reconfiguration mode", "leaving reconfiguration mode enters event mode instead of step mode",
 [(F3, "            case CoSimulation:\n                S->state = StepMode;\n                break;", "            case CoSimulation:\n                S->state = S->eventModeUsed ? EventMode : StepMode;\n                break;")],
 main("  fmi3Instance s = " + CS(1) + "; CHECK(s); " + INIT + "\n  CHECK(fmi3EnterStepMode(s) == fmi3OK); CHECK(fmi3EnterConfigurationMode(s) == fmi3OK); CHECK(fmi3ExitConfigurationMode(s) == fmi3OK);\n  fmi3Boolean a, b, c; fmi3Float64 t; CHECK(fmi3DoStep(s, 0, 1, 1, &a, &b, &c, &t) == fmi3OK);"), "StateSpace")
seed("c09-prez-from-z", "C09", "FMU state saved before the first internal step and restored", "the remembered event indicators are replaced by older ones when a state is restored",
 [(CO, "memcpy(comp->prez, s->prez, s->nz * sizeof(double));", "memcpy(comp->prez, comp->z, s->nz * sizeof(double));")],
 main("  fmi3Instance s = " + CS(1) + "; CHECK(s); " + INIT + "\n  CHECK(fmi3EnterStepMode(s) == fmi3OK); fmi3FMUState st = NULL; CHECK(fmi3GetFMUState(s, &st) == fmi3OK); CHECK(fmi3SetFMUState(s, st) == fmi3OK);\n  fmi3Boolean a, b, c; fmi3Float64 t; CHECK(fmi3DoStep(s, 0, FIXED_SOLVER_STEP, 1, &a, &b, &c, &t) == fmi3OK); CHECK(!a);"), "BouncingBall")
seed("c09-comm-point", "C09", "state restored to an earlier communication point", "the expected communication point is not part of the restored state",
 [(CO, "    comp->nextCommunicationPoint = s->nextCommunicationPoint;\n\n#if", "#if")],
 main("  fmi3Instance s = " + CS() + "; CHECK(s); " + INIT + "\n  fmi3FMUState st = NULL; CHECK(fmi3GetFMUState(s, &st) == fmi3OK);\n  fmi3Boolean a, b, c; fmi3Float64 t; CHECK(fmi3DoStep(s, 0, 0.5, 0, &a, &b, &c, &t) == fmi3OK); CHECK(fmi3SetFMUState(s, st) == fmi3OK);\n  CHECK(fmi3DoStep(s, 0, 0.5, 0, &a, &b, &c, &t) == fmi3OK); CHECK(t > 0.4 && t < 0.6);"), "Dahlquist")
seed("c10-larger-buffer", "C10", "serialized state passed with a size that is larger than the state", "a buffer of the wrong size is accepted for deserialization",
 [(F3, '''    if (invalidNumber(S, "fmi3DeserializeFMUState", "size", size, sizeof(ModelInstance))) {
        return fmi3Error;
    }''', '''    if (size < sizeof(ModelInstance)) {
        invalidNumber(S, "fmi3DeserializeFMUState", "size", size, sizeof(ModelInstance));
        return fmi3Error;
    }''')],
 main("  fmi3Instance s = " + ME + "; CHECK(s); fmi3FMUState st = NULL, t = NULL; size_t n; CHECK(fmi3GetFMUState(s, &st) == fmi3OK); CHECK(fmi3SerializedFMUStateSize(s, st, &n) == fmi3OK);\n  fmi3Byte *b = calloc(1, n + 8); CHECK(fmi3SerializeFMUState(s, st, b, n) == fmi3OK); CHECK(fmi3DeserializeFMUState(s, b, n + 8, &t) == fmi3Error);"), "Stair")
seed("c11-steps-kept", "C11", "instance reset after some steps and simulated again", "the counter of internal steps survives a reset",
 [(CO, "    comp->nSteps = 0;\n    comp->status = OK;\n", "    comp->status = OK;\n")],
 main("  fmi3Instance s = " + CS() + "; CHECK(s); " + INIT + "\n  fmi3Boolean a, b, c; fmi3Float64 t; CHECK(fmi3DoStep(s, 0, 0.5, 0, &a, &b, &c, &t) == fmi3OK); CHECK(fmi3Reset(s) == fmi3OK); " + INIT + "\n  CHECK(fmi3DoStep(s, 0, 0.5, 0, &a, &b, &c, &t) == fmi3OK); CHECK(t > 0.4 && t < 0.6);"), "Dahlquist")
seed("c12-token-prefix", "C12", "instantiation with the beginning of the right token", "a truncated instantiation token is accepted",
 [(CO, "if (strcmp(instantiationToken, INSTANTIATION_TOKEN)) {", "if (strncmp(instantiationToken, INSTANTIATION_TOKEN, strlen(instantiationToken))) {")],
 main('  char t[100]; strcpy(t, INSTANTIATION_TOKEN); t[strlen(t) - 1] = 0; CHECK(!fmi3InstantiateModelExchange("a", t, NULL, 0, 0, NULL, NULL));'), "Stair")
seed("c13-stop-from-time", "C13", "communication steps that are no multiple of the internal step, close to the stop time", "a step beyond the stop time is accepted when the internal time lags behind the communication point",
 [(F3, "    if (nextCommunicationPoint > S->stopTime && !isClose(nextCommunicationPoint, S->stopTime)) {", "    if (S->time + communicationStepSize > S->stopTime && !isClose(nextCommunicationPoint, S->stopTime)) {")],
 main("  fmi3Instance s = " + CS() + "; CHECK(s); CHECK(fmi3EnterInitializationMode(s, 0, 0, 0, 1, 0.3) == fmi3OK); CHECK(fmi3ExitInitializationMode(s) == fmi3OK);\n  fmi3Boolean a, b, c; fmi3Float64 t; CHECK(fmi3DoStep(s, 0, 0.15, 0, &a, &b, &c, &t) == fmi3OK); CHECK(fmi3DoStep(s, 0.15, 0.18, 0, &a, &b, &c, &t) == fmi3Error);"), "Dahlquist")
seed("c14-next-point-from-time", "C14", "communication step that is no multiple of the internal step", "the next expected communication point is the internal time instead of the end of the step",
 [(F3, "        S->nextCommunicationPoint = currentCommunicationPoint + communicationStepSize;\n", "        S->nextCommunicationPoint = S->time;\n")],
 main("  fmi3Instance s = " + CS() + "; CHECK(s); " + INIT + "\n  fmi3Boolean a, b, c; fmi3Float64 t; CHECK(fmi3DoStep(s, 0, 0.25, 0, &a, &b, &c, &t) == fmi3OK); CHECK(fmi3DoStep(s, 0.25, 0.25, 0, &a, &b, &c, &t) == fmi3OK);"), "Dahlquist")
seed("c15-zero-indicator", "C15", "event indicator that reaches exactly zero at an internal step", "a state event is missed when the event indicator falls to exactly zero",
 [(CO, "(comp->prez[i] >  0 && comp->z[i] <= 0)", "(comp->prez[i] >  0 && comp->z[i] <  0)")],
 main("  fmi3Instance s = " + CS(1) + "; CHECK(s); CHECK(fmi3EnterInitializationMode(s, 0, 0, 0, 0, 0) == fmi3OK); fmi3ValueReference r[2] = { 1, 3 }; fmi3Float64 v[2] = { FIXED_SOLVER_STEP, -1 }; CHECK(fmi3SetFloat64(s, r, 2, v, 2) == fmi3OK);\n  CHECK(fmi3ExitInitializationMode(s) == fmi3OK); CHECK(fmi3EnterStepMode(s) == fmi3OK);\n  fmi3Boolean a, b, c; fmi3Float64 t; CHECK(fmi3DoStep(s, 0, 0.001, 1, &a, &b, &c, &t) == fmi3OK); CHECK(a);"), "BouncingBall")
seed("c15-early-flag", "C15", "early return allowed and event in the last internal step of the communication step", "no early return is reported although the step ended at an event before the communication point",
 [(F3, "    *earlyReturn         = S->earlyReturnAllowed && !nextCommunicationPointReached;", "    *earlyReturn         = S->earlyReturnAllowed && *eventHandlingNeeded && !nextCommunicationPointReached;")],
 main("  fmi3Instance s = " + CS(0, 1) + "; CHECK(s); " + INIT + "\n  fmi3Boolean a, b, c; fmi3Float64 t; CHECK(fmi3DoStep(s, 0, 5, 1, &a, &b, &c, &t) == fmi3OK); CHECK(t < 2); CHECK(c);"), "BouncingBall")
seed("c16-start-time", "C16", "simulation that starts at a time other than zero", "the time grid of the internal solver ignores the start time",
 [(CO, "comp->time = comp->startTime + comp->nSteps * FIXED_SOLVER_STEP;", "comp->time = comp->nSteps * FIXED_SOLVER_STEP;")],
 main("  fmi3Instance s = " + CS() + "; CHECK(s); CHECK(fmi3EnterInitializationMode(s, 0, 0, 2, 0, 0) == fmi3OK); CHECK(fmi3ExitInitializationMode(s) == fmi3OK);\n  fmi3Boolean a, b, c; fmi3Float64 t; CHECK(fmi3DoStep(s, 2, 0.5, 0, &a, &b, &c, &t) == fmi3OK); fmi3ValueReference r = 1; fmi3Float64 x; CHECK(fmi3GetFloat64(s, &r, 1, &x, 1) == fmi3OK); CHECK(x > 0.5);"), "Dahlquist")
seed("c18-indicator-ground", "C18", "ball exactly on the ground that moves up", "the hysteresis of the event indicator is missing at height zero",
 [("BouncingBall/model.c", "M(h) <= 0 && M(v) > 0) {", "M(h) < 0 && M(v) > 0) {")],
 main("  fmi3Instance s = " + ME + "; CHECK(s); " + INIT + "\n  CHECK(fmi3EnterContinuousTimeMode(s) == fmi3OK); fmi3Float64 x[2] = { 0, 1 }, z; CHECK(fmi3SetContinuousStates(s, x, 2) == fmi3OK); CHECK(fmi3GetEventIndicators(s, &z, 1) == fmi3OK); CHECK(z < 0);"), "BouncingBall")
seed("c19-exact-ground", "C19", "event handled when the ball is exactly at height zero", "a ball that is exactly on the ground and falls is not reflected",
 [("BouncingBall/model.c", "    if (M(h) <= 0 && M(v) < 0) {", "    if (M(h) < 0 && M(v) < 0) {")],
 main("  fmi3Instance s = " + ME + "; CHECK(s); " + INIT + "\n  CHECK(fmi3EnterContinuousTimeMode(s) == fmi3OK); fmi3Float64 x[2] = { 0, -1 }, y[2]; CHECK(fmi3SetContinuousStates(s, x, 2) == fmi3OK); CHECK(fmi3EnterEventMode(s) == fmi3OK); fmi3Boolean b; CHECK(fmi3UpdateDiscreteStates(s, &b, &b, &b, &b, &b, x) == fmi3OK); CHECK(fmi3GetContinuousStates(s, y, 2) == fmi3OK); CHECK(y[1] > 0);"), "BouncingBall")
seed("c20-adjoint-seed", "C20", "adjoint derivatives of several unknowns", "adjoint derivatives use the seed of the known instead of the unknown",
 [(F3, '''            CALL(getPartialDerivative(S, (ValueReference)unknowns[j], (ValueReference)knowns[i], &partialDerivative));
            sensitivity[i] += partialDerivative * seed[j];''', '''            CALL(getPartialDerivative(S, (ValueReference)unknowns[j], (ValueReference)knowns[i], &partialDerivative));
            sensitivity[i] += partialDerivative * seed[i];''')],
 main("  fmi3Instance s = " + ME + "; CHECK(s); " + INIT + "\n  fmi3ValueReference u[2] = { 2, 4 }, k[2] = { 1, 3 }; fmi3Float64 seed[2] = { 2, 0 }, d[2]; CHECK(fmi3GetAdjointDerivative(s, u, 2, k, 2, seed, 2, d, 2) == fmi3OK); CHECK(d[0] == 0 && d[1] == 2);"), "VanDerPol")
seed("c21-stale-states", "C21", "number of states changed in a second (re)configuration", "the solver keeps the number of states of the first configuration",
 [(CO, "    comp->nx = getNumberOfContinuousStates(comp);\n", "    if (comp->nx == 0) {\n        comp->nx = getNumberOfContinuousStates(comp);\n    }\n")],
 main("  fmi3Instance s = " + CS() + "; CHECK(s); " + INIT + "\n  CHECK(fmi3EnterConfigurationMode(s) == fmi3OK); fmi3ValueReference r = 2; fmi3UInt64 n = 2; CHECK(fmi3SetUInt64(s, &r, 1, &n, 1) == fmi3OK); CHECK(fmi3ExitConfigurationMode(s) == fmi3OK);\n  fmi3Boolean a, b, c; fmi3Float64 t; CHECK(fmi3DoStep(s, 0, 1, 0, &a, &b, &c, &t) == fmi3OK);"), "StateSpace")
seed("c22-interval-again", "C22", "interval of the countdown clock queried twice", "a changed interval is reported as changed on every query",
 [("Clocks/model.c", "            M(inClock3_qualifier) = 1;          // fmi3IntervalUnchanged\n", "            M(inClock3_interval) = 0.0;\n")],
 main('  fmi3Instance s = fmi3InstantiateScheduledExecution("a", INSTANTIATION_TOKEN, NULL, 0, 0, NULL, NULL, NULL, NULL, NULL); CHECK(s); ' + INIT + "\n  CHECK(fmi3ActivateModelPartition(s, 1001, 4) == fmi3OK); fmi3ValueReference r = 1003; fmi3Float64 i; fmi3IntervalQualifier q; CHECK(fmi3GetIntervalDecimal(s, &r, 1, &i, &q) == fmi3OK); CHECK(q == 2); CHECK(fmi3GetIntervalDecimal(s, &r, 1, &i, &q) == fmi3OK); CHECK(q == 1);"), "Clocks")
seed("c22-unlock-late", "C22", "model partition that preempts the second one right after preemption is unlocked", "the second model partition changes its output clock after preemption has been unlocked",
 [("Clocks/model.c", '''    M(result2) += M(input2);
    M(input2) = 0;

    // set output clocks
    M(outClock) = ((M(outClock) == false) && (M(totalInClockTicks) % 5 == 0));

    if (comp->unlockPreemption) {
        comp->unlockPreemption();
    }
''', '''    M(result2) += M(input2);
    M(input2) = 0;

    if (comp->unlockPreemption) {
        comp->unlockPreemption();
    }

    // set output clocks
    M(outClock) = ((M(outClock) == false) && (M(totalInClockTicks) % 5 == 0));
''')],
 main('  fmi3Instance s = fmi3InstantiateScheduledExecution("a", INSTANTIATION_TOKEN, NULL, 0, 0, NULL, NULL, NULL, NULL, ul); CHECK(s); S = s; ' + INIT + "\n  for (int i = 0; i < 5; i++) CHECK(fmi3ActivateModelPartition(s, 1002, i) == fmi3OK); CHECK(seen == 1);",
      H3 + "static ModelInstance *S; static int seen; static void ul(void) { seen = S->modelData.outClock; }\n"), "Clocks")
seed("c23-errors-stay-on", "C23", "error messages switched off by category", "switching off the category logStatusError has no effect",
 [(CO, '''            } else if (strcmp(categories[i], "logStatusError") == 0) {
                comp->logErrors = loggingOn;''', '''            } else if (strcmp(categories[i], "logStatusError") == 0) {
                comp->logErrors |= loggingOn;''')],
 main('  fmi3Instance s = fmi3InstantiateModelExchange("a", INSTANTIATION_TOKEN, NULL, 0, 1, NULL, lg); CHECK(s); const char *c = "logStatusError"; CHECK(fmi3SetDebugLogging(s, 0, 1, &c) == fmi3OK); n = 0; CHECK(fmi3EnterStepMode(s) == fmi3Error); CHECK(n == 0);',
      H3 + "static int n; static void lg(fmi3InstanceEnvironment e, fmi3Status s, fmi3String c, fmi3String m) { n++; }\n"), "Stair")
seed("c25-shared-string", "C25", "strings read from two instances", "the string read from one instance changes when another instance is read",
 [("Feedthrough/model.c", "            values[(*index)++] = M(String_output);", "            strcpy(lastString, M(String_output));\n            values[(*index)++] = lastString;"),
  ("Feedthrough/model.c", "Status getString(ModelInstance* comp, ValueReference vr, const char* values[], size_t nValues, size_t* index) {\n", "Status getString(ModelInstance* comp, ValueReference vr, const char* values[], size_t nValues, size_t* index) {\n\n    static char lastString[STRING_MAX_LEN];\n\n")],
 main("  fmi3Instance s = " + ME + ", t = " + ME + "; CHECK(s && t); fmi3ValueReference i = 29, o = 30; const char *v = \"one\", *a, *b; CHECK(fmi3SetString(s, &i, 1, &v, 1) == fmi3OK); v = \"two\"; CHECK(fmi3SetString(t, &i, 1, &v, 1) == fmi3OK);\n  CHECK(fmi3GetString(s, &o, 1, &a, 1) == fmi3OK); CHECK(fmi3GetString(t, &o, 1, &b, 1) == fmi3OK); CHECK(!strcmp(a, \"one\"));"), "Feedthrough")
seed("c26-nominal", "C26", "nominal values of the states queried", "the nominal value of the second state differs from the model description",
 [("Roberts/model.c", "#define Y2_NOMINAL (1e-2)", "#define Y2_NOMINAL (1e-6)")],
 main("  fmi3Instance s = " + ME + "; CHECK(s); " + INIT + "\n  fmi3Float64 n[2]; CHECK(fmi3GetNominalsOfContinuousStates(s, n, 2) == fmi3OK); CHECK(n[0] == 1e-4 && n[1] == 1e-2);"), "Roberts")
