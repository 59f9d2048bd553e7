from mkseed import seed
H3 = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include "config.h"\n#include "model.h"\n#include "fmi3Functions.h"\n#define CHECK(c) do { if (!(c)) { printf("FAILED line %d\\n", __LINE__); return 1; } } while (0)\n'
H2 = H3.replace("fmi3Functions", "fmi2Functions")
ME = 'fmi3InstantiateModelExchange("a", INSTANTIATION_TOKEN, NULL, 0, 0, NULL, NULL)'
def CS(ev=0, er=0): return 'fmi3InstantiateCoSimulation("a", INSTANTIATION_TOKEN, NULL, 0, 0, %d, %d, NULL, 0, NULL, NULL, NULL)' % (ev, er)
INIT = "CHECK(fmi3EnterInitializationMode(s, 0, 0, 0, 0, 0) == fmi3OK); CHECK(fmi3ExitInitializationMode(s) == fmi3OK);"
def main(body, h=H3): return h + "int main(void) {\n" + body + "\n  return 0; }\n"
CO = "src/cosimulation.c"; F3 = "src/fmi3Functions.c"; F2 = "src/fmi2Functions.c"

