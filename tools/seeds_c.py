import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
from seeds_b_common import *
I3 = "src/FMI3.c"; I2 = "src/FMI2.c"; IF = "src/FMI.c"
SRC = "src/FMI.c src/FMI2.c src/FMI3.c"
HI = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "FMI2.h"
#include "FMI3.h"
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d\\n", __LINE__); return 1; } } while (0)
static char last[200000]; static int calls; static FMIStatus lastStatus;
static void logCall(FMIInstance *i, FMIStatus s, const char *m, ...) { calls++; lastStatus = s; strncpy(last, m, sizeof(last) - 1); }
'''
def imp(pre, body): return HI + pre + "\nint main(void) {\n" + body + "\n  return 0; }\n"
NEW3 = '  FMIInstance *I = FMICreateInstance("a", NULL, logCall); CHECK(I); I->fmi3Functions = calloc(1, sizeof(FMI3Functions)); I->component = (void *)&calls; I->fmiMajorVersion = FMIMajorVersion3;\n'
NEW2 = NEW3.replace("fmi3F", "fmi2F").replace("FMI3F", "FMI2F").replace("Version3", "Version2")

# importer
seed("c27-resolution-order", "C27", "importer sets the interval of a clock as a fraction with counter and resolution that differ", "counter and resolution are handed over in the wrong order",
 [(I3, '''    CALL_ARGS(SetIntervalFraction,
        "valueReferences=0x%p, nValueReferences=%zu, intervalCounters=0x%p, resolutions=0x%p",
        valueReferences, nValueReferences, intervalCounters, resolutions);''', '''    CALL_ARGS(SetIntervalFraction,
        "valueReferences=0x%p, nValueReferences=%zu, resolutions=0x%p, intervalCounters=0x%p",
        valueReferences, nValueReferences, resolutions, intervalCounters);''')],
 imp("static fmi3UInt64 c0, r0; static fmi3Status f(fmi3Instance i, const fmi3ValueReference v[], size_t n, const fmi3UInt64 c[], const fmi3UInt64 r[]) { c0 = c[0]; r0 = r[0]; return fmi3OK; }",
  NEW3 + "  I->fmi3Functions->fmi3SetIntervalFraction = f; fmi3ValueReference v = 1; fmi3UInt64 c = 3, r = 10; CHECK(FMI3SetIntervalFraction(I, &v, 1, &c, &r) == FMIOK); CHECK(c0 == 3 && r0 == 10);"), src=SRC)
seed("c27-status-worst", "C27", "a call succeeds after an earlier call of the same instance failed", "the status returned to the caller is the worst one seen so far instead of the one of the call",
 [(I3, '''        FMIAppendToLogMessageBuffer(instance, "}, nValues=%zu)", nValues); \\
        instance->logFunctionCall(instance, status, instance->logMessageBuffer); \\
    } \\
    instance->status = status > instance->status ? status : instance->status; \\
    return status; \\''', '''        FMIAppendToLogMessageBuffer(instance, "}, nValues=%zu)", nValues); \\
        instance->logFunctionCall(instance, status, instance->logMessageBuffer); \\
    } \\
    instance->status = status > instance->status ? status : instance->status; \\
    return instance->status; \\''')],
 imp("static fmi3Status res; static fmi3Status f(fmi3Instance i, const fmi3ValueReference v[], size_t n, fmi3Int16 a[], size_t m) { return res; }",
  NEW3 + "  I->fmi3Functions->fmi3GetInt16 = f; fmi3ValueReference v = 1; fmi3Int16 a = 0; res = fmi3Discard; CHECK(FMI3GetInt16(I, &v, 1, &a, 1) == FMIDiscard); res = fmi3OK; CHECK(FMI3GetInt16(I, &v, 1, &a, 1) == FMIOK);"), src=SRC)
seed("c28-nominals-logged", "C28", "call logging is active and the nominal values are requested", "the function is called a second time while its log text is written",
 [(I2, '''        FMIAppendToLogMessageBuffer(instance, "fmi2GetNominalsOfContinuousStates(x_nominal={");''', '''        instance->fmi2Functions->fmi2GetNominalsOfContinuousStates(instance->component, x_nominal, nx);
        FMIAppendToLogMessageBuffer(instance, "fmi2GetNominalsOfContinuousStates(x_nominal={");''')],
 imp("static int n; static fmi2Status f(fmi2Component i, fmi2Real a[], size_t m) { n++; a[0] = n; return fmi2OK; }",
  NEW2 + "  I->fmi2Functions->fmi2GetNominalsOfContinuousStates = f; fmi2Real a = 0; CHECK(FMI2GetNominalsOfContinuousStates(I, &a, 1) == FMIOK); CHECK(n == 1 && a == 1);"), src=SRC)
seed("c28-step-flag", "C28", "co-simulation step with noSetFMUStatePriorToCurrentPoint = false", "the flag that allows going back before the current point is normalized to true for repeated steps",
 [(I2, '''    CALL_ARGS(DoStep, "currentCommunicationPoint=%.16g, communicationStepSize=%.16g, noSetFMUStatePriorToCurrentPoint=%d",
        currentCommunicationPoint, communicationStepSize, noSetFMUStatePriorToCurrentPoint);''', '''    CALL_ARGS(DoStep, "currentCommunicationPoint=%.16g, communicationStepSize=%.16g, noSetFMUStatePriorToCurrentPoint=%d",
        currentCommunicationPoint, communicationStepSize, noSetFMUStatePriorToCurrentPoint || currentCommunicationPoint > 0);''')],
 imp("static int b; static fmi2Status f(fmi2Component i, fmi2Real t, fmi2Real h, fmi2Boolean x) { b = x; return fmi2OK; }",
  NEW2 + "  I->fmi2Functions->fmi2DoStep = f; CHECK(FMI2DoStep(I, 1, 1, fmi2False) == FMIOK); CHECK(b == fmi2False);"), src=SRC)
seed("c29-reconfig-event", "C29", "co-simulation instance with event mode leaves reconfiguration mode", "the importer believes the FMU is in event mode although it is in step mode",
 [(I3, '''        } else if (instance->interfaceType == FMICoSimulation) {
            instance->state = FMIStepModeState;
        } else {
            instance->state = FMIClockActivationMode;
        }

    } else {

        return FMIError;''', '''        } else if (instance->interfaceType == FMICoSimulation) {
            instance->state = instance->fmi3Functions->eventModeUsed ? FMIEventModeState : FMIStepModeState;
        } else {
            instance->state = FMIClockActivationMode;
        }

    } else {

        return FMIError;''')],
 imp("static fmi3Status f(fmi3Instance i) { return fmi3OK; }",
  NEW3 + "  I->fmi3Functions->fmi3EnterConfigurationMode = f; I->fmi3Functions->fmi3ExitConfigurationMode = f; I->interfaceType = FMICoSimulation; I->fmi3Functions->eventModeUsed = true; I->state = FMIStepModeState; CHECK(FMI3EnterConfigurationMode(I) == FMIOK); CHECK(FMI3ExitConfigurationMode(I) == FMIOK); CHECK(I->state == FMIStepModeState);"), src=SRC)
seed("c29-log-status", "C29", "the FMU 2.0 logs a message of status discard", "the status of forwarded log messages is reduced to OK, warning and error",
 [(I2, '    instance->logMessage(instance, (FMIStatus)status, category, buf);', '    instance->logMessage(instance, status == fmi2Discard ? FMIWarning : (FMIStatus)status, category, buf);')],
 imp('''#include "../src/../include/FMI.h"
static FMIStatus got = -1; static void lm(FMIInstance *i, FMIStatus s, const char *c, const char *m, ...) { got = s; }
static fmi2CallbackLogger lg;
static fmi2Component inst(fmi2String n, fmi2Type t, fmi2String g, fmi2String r, const fmi2CallbackFunctions *f, fmi2Boolean v, fmi2Boolean l) { f->logger(f->componentEnvironment, n, fmi2Discard, "c", "x"); return NULL; }
void *dlsym(void *h, const char *name) { return strcmp(name, "fmi2Instantiate") ? (void *)inst : (void *)inst; }
int dlclose(void *h) { return 0; }''',
  '  FMIInstance *I = FMICreateInstance("a", lm, NULL); CHECK(I); FMI2Instantiate(I, "", fmi2CoSimulation, "g", 0, 0); CHECK(got == FMIDiscard);'), src=SRC)
seed("c30-append-exact", "C30", "call-log text that fills the buffer exactly to its last byte", "the last character of the text is lost when it fits exactly without its terminator",
 [(IF, "    if (length < instance->logMessageBufferSize - instance->logMessageBufferPosition) {\n\n        instance->logMessageBufferPosition += length;\n\n    } else {", "    if (length <= instance->logMessageBufferSize - instance->logMessageBufferPosition) {\n\n        instance->logMessageBufferPosition += length;\n\n    } else {")],
 imp("", '  FMIInstance *I = FMICreateInstance("a", NULL, NULL); CHECK(I); char *t = malloc(I->logMessageBufferSize + 1); memset(t, 65, I->logMessageBufferSize); t[I->logMessageBufferSize] = 0; FMIAppendToLogMessageBuffer(I, "%s", t); CHECK(!strcmp(I->logMessageBuffer, t));'), src=SRC)
seed("c30-hex-sign", "C30", "binary value with bytes above 127 in the call log", "bytes of binaries are printed as signed numbers and run out of their two digits",
 [(IF, "            const unsigned char* v = ((const unsigned char**)values)[i];", "            const char* v = ((const char**)values)[i];"), (IF, 'snprintf(s, n, "%02hhx", v[j]);', 'snprintf(s, n, "%02x", v[j]);')],
 imp("", '  FMIInstance *I = FMICreateInstance("a", NULL, NULL); CHECK(I); const char b[] = "\\x01\\xff"; const void *v[] = { b }; size_t s[] = { 2 }; FMIAppendArrayToLogMessageBuffer(I, v, 1, s, FMIBinaryType); CHECK(!strcmp(I->logMessageBuffer, "0x01ff"));'), src=SRC)
seed("c31-rest-of-buffer", "C31", "path with characters to be encoded that only just does not fit", "the remaining size is only checked for one character although an encoded one needs three",
 [(IF, "        if (uriLength < p + 4) {", "        if (uriLength < p + 2) {")],
 imp("", '  char u[64]; memset(u, 7, sizeof(u)); FMIPathToURI("/    ", u, 16); for (int i = 16; i < 64; i++) CHECK(u[i] == 7);'), src=SRC)
seed("c31-tuple", "C31", "library path of an FMU for FMI 2.0", "the platform folder of FMI 3.0 is used for FMI 2.0 as well",
 [(IF, "fmiMajorVersion < FMIMajorVersion3 ? FMI_PLATFORM : FMI_PLATFORM_TUPLE", "fmiMajorVersion < FMIMajorVersion2 ? FMI_PLATFORM : FMI_PLATFORM_TUPLE")],
 imp("", '  char u[100]; CHECK(FMIPlatformBinaryPath("/a", "M", FMIMajorVersion2, u, sizeof(u)) == FMIOK); CHECK(strstr(u, "/binaries/" FMI_PLATFORM "/M"));'), src=SRC)
seed("c32-optional-states", "C32", "FMU library that lacks fmi3SerializeFMUState", "a library without one of the state functions is accepted",
 [(I3, "    LOAD_SYMBOL(SerializeFMUState);", '    instance->fmi3Functions->fmi3SerializeFMUState = (fmi3SerializeFMUStateTYPE*)dlsym(instance->libraryHandle, "fmi3SerializeFMUState");')],
 imp('''static int entered; static void *inst(void) { entered++; return NULL; }
void *dlsym(void *h, const char *name) { return strcmp(name, "fmi3SerializeFMUState") ? (void *)inst : NULL; }
int dlclose(void *h) { return 0; }''',
  '  FMIInstance *I = FMICreateInstance("a", NULL, NULL); CHECK(I); CHECK(FMI3InstantiateModelExchange(I, "g", "", 0, 0) != FMIOK); CHECK(!entered);'), src=SRC)
seed("c33-size-zero", "C33", "memory is reallocated to size zero", "the caller keeps a dangling pointer after shrinking to nothing",
 [(IF, "        if (*memory) {\n            free(*memory);\n            *memory = NULL;\n        }\n\n    } else {", "        if (*memory) {\n            free(*memory);\n        }\n\n    } else {")],
 imp("", '  void *m = NULL; CHECK(FMIRealloc(&m, 10) == FMIOK); CHECK(FMIRealloc(&m, 0) == FMIOK); CHECK(!m);'), src=SRC)
seed("c33-name-shared", "C33", "the caller changes its name buffer after creating an instance", "the instance refers to the caller's name instead of owning a copy",
 [(IF, "    instance->name = strdup(instanceName);", "    instance->name = (char*)instanceName;"), (IF, "    FMIFree((void**)&instance->name);\n\n", "")],
 imp("", '  char n[] = "abc"; FMIInstance *I = FMICreateInstance(n, NULL, NULL); CHECK(I); n[0] = 120; CHECK(!strcmp(I->name, "abc"));'), src=SRC)

# variable access
seed("c05-uint64-narrow", "C05", "a UInt64 input of at least 2^32 is written", "large UInt64 values lose their upper half",
 [("Feedthrough/model.c", "            M(UInt64_input) = values[(*index)++];", "            M(UInt64_input) = (uint32_t)values[(*index)++];")],
 main("  fmi3Instance s = " + ME + "; CHECK(s); fmi3ValueReference v = vr_UInt64_input; fmi3UInt64 a = 1ull << 40, b = 0; CHECK(fmi3SetUInt64(s, &v, 1, &a, 1) == fmi3OK); CHECK(fmi3GetUInt64(s, &v, 1, &b, 1) == fmi3OK); CHECK(a == b);"), "Feedthrough")
seed("c08-binary-limit", "C08", "binary value that is one byte longer than permitted", "a binary one byte above the limit is accepted",
 [("Feedthrough/model.c", "            if (size[*index] > BINARY_MAX_LEN) {", "            if (size[*index] > BINARY_MAX_LEN + 1) {")],
 main("  fmi3Instance s = " + ME + "; CHECK(s); fmi3ValueReference v = vr_Binary_input; fmi3Byte b[300] = {0}; fmi3Binary a = b; size_t n = BINARY_MAX_LEN + 1; CHECK(fmi3SetBinary(s, &v, 1, &n, &a, 1) == fmi3Error);"), "Feedthrough")
seed("c06-output-writable", "C06", "an importer writes the Int8 output", "writing an output is silently accepted",
 [("Feedthrough/model.c", "            M(Int8_input) = values[(*index)++];\n            break;\n        default:\n            logError(comp, \"Set Int8", "            M(Int8_input) = values[(*index)++];\n            break;\n        case vr_Int8_output:\n            ASSERT_NVALUES(1);\n            M(Int8_output) = values[(*index)++];\n            break;\n        default:\n            logError(comp, \"Set Int8")],
 main("  fmi3Instance s = " + ME + "; CHECK(s); fmi3ValueReference v = vr_Int8_output; fmi3Int8 a = 2; CHECK(fmi3SetInt8(s, &v, 1, &a, 1) == fmi3Error);"), "Feedthrough")
seed("c07-matrix-count", "C07", "the D matrix is read with fewer values than it has and other input and output dimensions", "the number of values is checked with the wrong dimension and values are written behind the array",
 [("StateSpace/model.c", "            ASSERT_NVALUES((size_t)(M(r) * M(m)));\n            for (size_t i = 0; i < M(r); i++) {\n                for (size_t j = 0; j < M(m); j++) {\n                    values[(*index)++] = M(D)[i][j];", "            ASSERT_NVALUES((size_t)(M(m) * M(m)));\n            for (size_t i = 0; i < M(r); i++) {\n                for (size_t j = 0; j < M(m); j++) {\n                    values[(*index)++] = M(D)[i][j];")],
 main("  fmi3Instance s = " + ME + "; CHECK(s); CHECK(fmi3EnterConfigurationMode(s) == fmi3OK); fmi3ValueReference v = vr_m, w = vr_D; fmi3UInt64 a = 1; CHECK(fmi3SetUInt64(s, &v, 1, &a, 1) == fmi3OK); CHECK(fmi3ExitConfigurationMode(s) == fmi3OK); fmi3Float64 d[9] = { 7, 7, 7, 7 }; fmi3GetFloat64(s, &w, 1, d, 1); CHECK(d[1] == 7);"), "StateSpace")
seed("c24-decode-letters", "C24", "resource location with a percent-encoded byte such as %20", "percent-encoded characters without hexadecimal letters are decoded as decimal numbers",
 [("Resource/model.c", "            *dst = strtol(buf, NULL, 16);", "            *dst = strtol(buf, NULL, buf[1] > '9' ? 16 : 10);")],
 H2 + '''static void lg(fmi2ComponentEnvironment e, fmi2String n, fmi2Status s, fmi2String c, fmi2String m, ...) {}
#include <unistd.h>
int main(void) { char u[5000] = "file://"; CHECK(getcwd(u + 7, 4000)); CHECK(!system("mkdir -p 'a b' && printf X > 'a b/y.txt'")); strcat(u, "/a%20b");
  fmi2CallbackFunctions cb = { lg, calloc, free, NULL, NULL }; fmi2Component s = fmi2Instantiate("a", fmi2ModelExchange, INSTANTIATION_TOKEN, u, &cb, 0, 0); CHECK(s); CHECK(fmi2SetupExperiment(s, 0, 0, 0, 0, 0) == fmi2OK); CHECK(fmi2EnterInitializationMode(s) == fmi2OK); fmi2ValueReference v = vr_y; fmi2Integer y; CHECK(fmi2GetInteger(s, &v, 1, &y) == fmi2OK); CHECK(y == 'X');
  return 0; }
''', "Resource", 2)
seed("c17-nominal-length", "C17", "nominal values are requested with a wrong vector length", "the length of the vector of nominal values is not checked",
 [("VanDerPol/model.c", "    ASSERT_NOT_NULL2(nominals);\n    ASSERT_SIZE_T(nx, MAX_CONTINUOUS_STATES);\n", "    ASSERT_NOT_NULL2(nominals);\n    UNUSED(nx);\n")],
 main("  fmi3Instance s = " + ME + "; CHECK(s); " + INIT + " fmi3Float64 x[9]; CHECK(fmi3GetNominalsOfContinuousStates(s, x, 1) == fmi3Error);"), "VanDerPol")
seed("c04-int64-output", "C04", "Int64 input beyond the 32 bit range", "the Int64 output shows only the lower 32 bits of the input",
 [("Feedthrough/model.c", "    M(Int64_output)   = M(Int64_input);", "    M(Int64_output)   = (int32_t)M(Int64_input);")],
 main("  fmi3Instance s = " + ME + "; CHECK(s); fmi3ValueReference v = vr_Int64_input, w = vr_Int64_output; fmi3Int64 a = 1ll << 40, b = 0; CHECK(fmi3SetInt64(s, &v, 1, &a, 1) == fmi3OK); CHECK(fmi3GetInt64(s, &w, 1, &b, 1) == fmi3OK); CHECK(a == b);"), "Feedthrough")
