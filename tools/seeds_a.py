import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
H3 = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include "config.h"\n#include "model.h"\n#include "fmi3Functions.h"\n#define CHECK(c) do { if (!(c)) { printf("FAILED line %d\\n", __LINE__); return 1; } } while (0)\n'
H2 = H3.replace("fmi3Functions", "fmi2Functions")
seed("c01-step-in-event", "C01", "co-simulation step requested while the FMU waits in event mode", "a step is executed in event mode instead of being rejected",
 [("src/fmi3Functions.c", "#define MASK_fmi3DoStep                   StepMode", "#define MASK_fmi3DoStep                   (StepMode | EventMode)")],
 H3 + '''int main(void) {
  fmi3Instance s = fmi3InstantiateCoSimulation("a", INSTANTIATION_TOKEN, NULL, 0, 0, 1, 1, NULL, 0, NULL, NULL, NULL); CHECK(s);
  CHECK(fmi3EnterInitializationMode(s, 0, 0, 0, 0, 0) == fmi3OK); CHECK(fmi3ExitInitializationMode(s) == fmi3OK);
  fmi3Boolean a, b, c; fmi3Float64 t;
  CHECK(fmi3DoStep(s, 0, 0.01, 1, &a, &b, &c, &t) == fmi3Error);
  return 0; }
''', "BouncingBall")
seed("c01-setint-ct", "C01", "discrete variable written by a model-exchange importer during continuous-time mode", "integer writes are accepted in continuous-time mode",
 [("src/fmi3Functions.c", "#define MASK_fmi3SetInt64                 MASK_fmi3SetInt8", "#define MASK_fmi3SetInt64                 MASK_fmi3SetFloat64")],
 H3 + '''int main(void) {
  fmi3Instance s = fmi3InstantiateModelExchange("a", INSTANTIATION_TOKEN, NULL, 0, 0, NULL, NULL); CHECK(s);
  CHECK(fmi3EnterInitializationMode(s, 0, 0, 0, 0, 0) == fmi3OK); CHECK(fmi3ExitInitializationMode(s) == fmi3OK);
  CHECK(fmi3EnterContinuousTimeMode(s) == fmi3OK);
  fmi3ValueReference vr = 23; fmi3Int64 v = 7;
  CHECK(fmi3SetInt64(s, &vr, 1, &v, 1) == fmi3Error);
  return 0; }
''', "Feedthrough")
seed("c02-time-before-check", "C02", "time set on a component that is not in event or continuous-time mode", "a rejected set-time call still changes the simulation time",
 [("src/fmi2Functions.c", '''    BEGIN_FUNCTION(SetTime);
    S->time = time;
    END_FUNCTION();''', '''    if (c) {
        ((ModelInstance *)c)->time = time;
    }
    BEGIN_FUNCTION(SetTime);
    END_FUNCTION();''')],
 H2 + '''static void lg(void *e, const char *n, fmi2Status s, const char *c, const char *m, ...) {}
int main(void) {
  fmi2CallbackFunctions f = { lg, calloc, free, NULL, NULL };
  fmi2Component s = fmi2Instantiate("a", fmi2CoSimulation, INSTANTIATION_TOKEN, "", &f, 0, 0); CHECK(s);
  CHECK(fmi2SetupExperiment(s, 0, 0, 0, 0, 0) == fmi2OK); CHECK(fmi2EnterInitializationMode(s) == fmi2OK); CHECK(fmi2ExitInitializationMode(s) == fmi2OK);
  fmi2ValueReference vr = 0; fmi2Real t = -1;
  CHECK(fmi2SetTime(s, 5.0) == fmi2Error);
  CHECK(fmi2GetReal(s, &vr, 1, &t) == fmi2OK); CHECK(t == 0.0);
  return 0; }
''', "BouncingBall", 2)
