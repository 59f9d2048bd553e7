"""FMU-side specification support: instance construction from symbolic inputs, frame predicates, mode tables."""
import re, subprocess
from core import *

ST2 = dict(Instantiated=2, InitializationMode=4, EventMode=8, ContinuousTimeMode=16, StepComplete=32, Terminated=512)
ST3 = dict(ConfigurationMode=2, Instantiated=4, InitializationMode=8, EventMode=16, ContinuousTimeMode=32, StepMode=64,
           ClockActivationMode=128, ReconfigurationMode=512, Terminated=2048)
REACH2 = ["Instantiated", "InitializationMode", "EventMode", "ContinuousTimeMode", "StepComplete", "Terminated"]
REACH3 = ["ConfigurationMode", "Instantiated", "InitializationMode", "EventMode", "ContinuousTimeMode", "StepMode",
          "ClockActivationMode", "ReconfigurationMode", "Terminated"]

# permitted modes per function (specification; FMI 3.0 standard state machine as supported by these FMUs)
_get3 = REACH3
_set3c = REACH3
_set3 = [s for s in REACH3 if s != "ContinuousTimeMode"]
_me3 = ["InitializationMode", "EventMode", "ContinuousTimeMode", "Terminated"]
ALLOWED3 = {
    "fmi3EnterInitializationMode": ["Instantiated"], "fmi3ExitInitializationMode": ["InitializationMode"],
    "fmi3EnterEventMode": ["ContinuousTimeMode", "StepMode"],
    "fmi3Terminate": ["ContinuousTimeMode", "StepMode", "EventMode", "ClockActivationMode", "ReconfigurationMode"],
    "fmi3GetDirectionalDerivative": ["InitializationMode", "StepMode", "EventMode", "ContinuousTimeMode", "Terminated"],
    "fmi3GetAdjointDerivative": ["InitializationMode", "StepMode", "EventMode", "ContinuousTimeMode", "Terminated"],
    "fmi3EnterConfigurationMode": ["Instantiated", "StepMode", "EventMode", "ClockActivationMode"],
    "fmi3ExitConfigurationMode": ["ConfigurationMode", "ReconfigurationMode"],
    "fmi3EnterContinuousTimeMode": ["EventMode"], "fmi3CompletedIntegratorStep": ["ContinuousTimeMode"],
    "fmi3SetTime": ["EventMode", "ContinuousTimeMode"], "fmi3SetContinuousStates": ["ContinuousTimeMode"],
    "fmi3GetContinuousStateDerivatives": _me3, "fmi3GetEventIndicators": _me3, "fmi3GetContinuousStates": _me3,
    "fmi3GetNominalsOfContinuousStates": _me3,
    "fmi3EnterStepMode": ["InitializationMode", "EventMode"], "fmi3GetOutputDerivatives": ["StepMode", "Terminated"],
    "fmi3DoStep": ["StepMode"], "fmi3ActivateModelPartition": ["ClockActivationMode"],
}
T3 = ["Float32", "Float64", "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Boolean", "String", "Binary"]
for _t in T3:
    ALLOWED3["fmi3Get" + _t] = _get3
    ALLOWED3["fmi3Set" + _t] = _set3c if _t.startswith("Float") else _set3
for _f in ["SetDebugLogging", "Reset", "GetClock", "SetClock", "GetFMUState", "SetFMUState", "FreeFMUState", "SerializedFMUStateSize",
           "SerializeFMUState", "DeserializeFMUState", "GetIntervalDecimal", "UpdateDiscreteStates",
           "GetNumberOfEventIndicators", "GetNumberOfContinuousStates"]:
    ALLOWED3["fmi3" + _f] = REACH3
UNSUPPORTED3 = ["fmi3GetNumberOfVariableDependencies", "fmi3GetVariableDependencies", "fmi3GetIntervalFraction", "fmi3GetShiftDecimal",
                "fmi3GetShiftFraction", "fmi3SetIntervalDecimal", "fmi3SetIntervalFraction", "fmi3SetShiftDecimal", "fmi3SetShiftFraction",
                "fmi3EvaluateDiscreteStates"]
_noinst = [s for s in REACH2 if s != "Instantiated"]
ALLOWED2 = {
    "fmi2SetDebugLogging": REACH2, "fmi2Reset": REACH2, "fmi2GetFMUstate": REACH2, "fmi2SetFMUstate": REACH2, "fmi2FreeFMUstate": REACH2,
    "fmi2SerializedFMUstateSize": REACH2, "fmi2SerializeFMUstate": REACH2, "fmi2DeSerializeFMUstate": REACH2,
    "fmi2SetupExperiment": ["Instantiated"], "fmi2EnterInitializationMode": ["Instantiated"], "fmi2ExitInitializationMode": ["InitializationMode"],
    "fmi2Terminate": ["EventMode", "ContinuousTimeMode", "StepComplete"],
    "fmi2GetReal": _noinst, "fmi2GetInteger": _noinst, "fmi2GetBoolean": _noinst, "fmi2GetString": _noinst, "fmi2GetDirectionalDerivative": _noinst,
    "fmi2SetReal": ["Instantiated", "InitializationMode", "EventMode", "ContinuousTimeMode", "StepComplete"],
    "fmi2EnterEventMode": ["EventMode", "ContinuousTimeMode"], "fmi2NewDiscreteStates": ["EventMode"], "fmi2EnterContinuousTimeMode": ["EventMode"],
    "fmi2CompletedIntegratorStep": ["ContinuousTimeMode"], "fmi2SetContinuousStates": ["ContinuousTimeMode"], "fmi2SetTime": ["EventMode", "ContinuousTimeMode"],
    "fmi2GetDerivatives": ["EventMode", "ContinuousTimeMode", "Terminated"],
    "fmi2GetEventIndicators": ["InitializationMode", "EventMode", "ContinuousTimeMode", "Terminated"],
    "fmi2GetContinuousStates": ["InitializationMode", "EventMode", "ContinuousTimeMode", "Terminated"],
    "fmi2GetNominalsOfContinuousStates": ["Instantiated", "EventMode", "ContinuousTimeMode", "Terminated"],
    "fmi2SetRealInputDerivatives": ["Instantiated", "InitializationMode", "StepComplete"],
    "fmi2GetRealOutputDerivatives": ["StepComplete", "Terminated"], "fmi2DoStep": ["StepComplete"], "fmi2CancelStep": [],
}
for _t in ("Integer", "Boolean", "String"): ALLOWED2["fmi2Set" + _t] = ["Instantiated", "InitializationMode", "EventMode", "StepComplete"]
for _t in ("Status", "RealStatus", "IntegerStatus", "BooleanStatus", "StringStatus"): ALLOWED2["fmi2Get" + _t] = ["StepComplete", "Terminated"]

_cache = {}
def preprocessed(model, ver):
    k = (model, ver)
    if k not in _cache:
        rc, o, e, to = sh(["gcc", "-E", "-P", "-DFMI_VERSION=%d" % ver, "-DDISABLE_PREFIX", "-I%s/include" % REPO, "-I%s/%s" % (REPO, model),
                           "-include", "config.h", "-x", "c", REPO + "/include/model.h"], 60)
        if rc: raise ToolError("preprocessing failed: " + e[-500:])
        _cache[k] = o
    return _cache[k]

def struct_fields(text, name):
    m = re.search(r"typedef\s+struct\s*(?:\w+\s*)?\{([^{}]*)\}\s*%s\s*;" % name, text)
    if not m: raise ToolError("struct %s not found" % name)
    out = []
    for d in m.group(1).split(";"):
        d = " ".join(d.split())
        if not d: continue
        mm = re.match(r"^(.*?[\s*])(\w+)\s*((?:\[[^\]]*\]\s*)*)$", d)
        if not mm: raise ToolError("cannot parse field: " + d)
        dims = [int(eval(x, {}, {})) for x in re.findall(r"\[([^\]]*)\]", mm.group(3))]
        out.append((mm.group(1).strip(), mm.group(2), dims))
    return out

_cfg = {}
def config(model):
    """#defines of config.h"""
    if model not in _cfg:
        d = {}
        for m in re.finditer(r"^\s*#\s*define\s+(\w+)[ \t]*(.*)$", strip_comments(read("%s/%s/config.h" % (REPO, model))), re.M): d[m.group(1)] = m.group(2).strip()
        _cfg[model] = d
    return _cfg[model]

# features (specification, per model)
EVENTS = {"BouncingBall", "Clocks", "Feedthrough", "Stair", "StateSpace"}
NX = {"BouncingBall": 2, "Dahlquist": 1, "Roberts": 2, "VanDerPol": 2, "StateSpace": 5}
NZ = {"BouncingBall": 1, "Roberts": 2}
STEP = {"BouncingBall": "1e-3", "Clocks": "1", "Dahlquist": "0.1", "Feedthrough": "0.1", "Resource": "1", "Roberts": "1e-6", "Stair": "0.2", "StateSpace": "1e-3", "VanDerPol": "1e-2"}
OUTDER = {"BouncingBall"}

def idx(dims):
    if not dims: return [""]
    out = [""]
    for d in dims: out = [o + "[%d]" % i for o in out for i in range(d)]
    return out

def eqx(t, a, b):
    if t == "double": return "DEQ(%s, %s)" % (a, b)
    if t == "float": return "SEQ(%s, %s)" % (a, b)
    return "%s == %s" % (a, b)

def same_fields(fields, a, b):
    ts = []
    for t, n, dims in fields:
        for i in idx(dims): ts.append(eqx(t, a + n + i, b + n + i))
    return " && ".join(ts) if ts else "1"

def data_fields(model, ver): return struct_fields(preprocessed(model, ver), "ModelData")

def valid_data(model, ver, p="d->"):
    """data invariant of model variables (what every reachable instance satisfies)"""
    c = []
    for t, n, dims in data_fields(model, ver):
        if t in ("bool", "_Bool"): c.append("*(const unsigned char *)&%s%s <= 1" % (p, n))
    if model == "Feedthrough":
        c += [p + "String_input[127] == 0", p + "String_output[127] == 0", p + "Binary_input_size <= 128", p + "Binary_output_size <= 128",
              "(%sEnumeration_input == 1 || %sEnumeration_input == 2)" % (p, p), "(%sEnumeration_output == 1 || %sEnumeration_output == 2)" % (p, p)]
    if model == "StateSpace": c += [p + "m <= 5", p + "n <= 5", p + "r <= 5"]
    return " && ".join(c) or "1"

def inst_decls(model, ver):
    nx, nz = NX.get(model, 0), NZ.get(model, 0)
    df = data_fields(model, ver)
    reach = REACH3 if ver == 3 else REACH2
    types = "p->type <= 1" if model != "Clocks" else "(p->type == 1 || p->type == 2)"
    L = ["struct inst_in { double startTime, stopTime, time, nextEventTime, nextCommunicationPoint; uint64_t nSteps; int32_t state;",
         "  uint8_t type, status, hasLogger, hasIU, hasCU, hasLock, hasUnlock, hasRes, logEvents, logErrors, nds, term, nom, val, netd, ct, dirty, era, emu;",
         "  ModelData md;"]
    if nz: L.append("  size_t nz; double z[%d], prez[%d];" % (nz, nz))
    if nx: L.append("  size_t nx; double x[%d], dx[%d];" % (nx, nx))
    L.append("};")
    L += ["static int g_iu, g_cu, g_lock, g_unlock, g_depth; static double g_iu_time; static int g_iu_flags; static void *g_env_seen; static char g_env;",
          "static char g_name[2] = \"x\"; static char g_res[2] = \"r\";"]
    if ver == 3: L.append("static void cb_logger(void *env, int status, const char *category, const char *message) { (void)env; (void)status; (void)category; (void)message; g_log++; }")
    else: L.append("static void cb_logger(void *env, const char *name, int status, const char *category, const char *message, ...) { (void)env; (void)name; (void)status; (void)category; (void)message; g_log++; }")
    L += ["static void cb_iu(void *env, double t, bool a, bool b, bool c, bool d, bool *e, double *f) { (void)e; (void)f; g_iu++; g_iu_time = t; g_iu_flags = a + 2 * b + 4 * c + 8 * d; g_env_seen = env; }",
          "static void cb_cu(void *env) { g_cu++; g_env_seen = env; }",
          "static void cb_lock(void) { g_lock++; g_depth++; }", "static void cb_unlock(void) { g_unlock++; g_depth--; }"]
    L += ["static inline _Bool valid_data(const ModelData *d) { return %s; }" % valid_data(model, ver)]
    st = " || ".join("p->state == %s" % s for s in reach)
    c = [st and "(" + st + ")", types, "p->status <= 3", "valid_data(&p->md)"]
    if model != "Clocks" and ver == 3: c.append("p->state != ClockActivationMode")
    if model == "Clocks": c.append("IMP(p->state == ClockActivationMode, p->type == 2)")
    if ver == 2: c.append("p->hasLogger")
    for f in "hasLogger hasIU hasCU hasLock hasUnlock hasRes logEvents logErrors nds term nom val netd ct dirty era emu".split(): c.append("p->%s <= 1" % f)
    if nz: c.append("p->nz <= %d" % nz)
    if nx: c.append("p->nx <= %d" % nx)
    if model == "StateSpace": c.append("(p->nx == p->md.n || p->state == Instantiated || p->state == ConfigurationMode || p->state == ReconfigurationMode || p->state == InitializationMode || p->state == Terminated)")
    L += ["static inline _Bool valid_in(const struct inst_in *p) { return %s; }" % " && ".join(c)]
    L += ["static void fill_instance(ModelInstance *I, const struct inst_in *p) {",
          "  I->startTime = p->startTime; I->stopTime = p->stopTime; I->time = p->time; I->instanceName = g_name; I->type = (InterfaceType)p->type;",
          "  I->resourceLocation = p->hasRes ? g_res : NULL; I->status = (Status)p->status; I->logger = p->hasLogger ? cb_logger : NULL; I->intermediateUpdate = p->hasIU ? cb_iu : NULL;",
          "  I->clockUpdate = p->hasCU ? cb_cu : NULL; I->lockPreemption = p->hasLock ? cb_lock : NULL; I->unlockPreemption = p->hasUnlock ? cb_unlock : NULL;",
          "  I->logEvents = p->logEvents != 0; I->logErrors = p->logErrors != 0; I->componentEnvironment = &g_env; I->state = (ModelState)p->state;",
          "  I->newDiscreteStatesNeeded = p->nds != 0; I->terminateSimulation = p->term != 0; I->nominalsOfContinuousStatesChanged = p->nom != 0;",
          "  I->valuesOfContinuousStatesChanged = p->val != 0; I->nextEventTimeDefined = p->netd != 0; I->nextEventTime = p->nextEventTime; I->clocksTicked = p->ct != 0;",
          "  I->isDirtyValues = p->dirty != 0; I->modelData = p->md; I->nSteps = p->nSteps; I->earlyReturnAllowed = p->era != 0; I->eventModeUsed = p->emu != 0;",
          "  I->nextCommunicationPoint = p->nextCommunicationPoint;"]
    if nz: L += ["  I->nz = p->nz;"] + ["  I->z[%d] = p->z[%d]; I->prez[%d] = p->prez[%d];" % (i, i, i, i) for i in range(nz)]
    if nx: L += ["  I->nx = p->nx;"] + ["  I->x[%d] = p->x[%d]; I->dx[%d] = p->dx[%d];" % (i, i, i, i) for i in range(nx)]
    L += ["}",
          "static ModelInstance *g_inst; static ModelInstance g_obj;\nstatic ModelInstance *mk_instance(const struct inst_in *p) { ModelInstance *I = &g_obj; fill_instance(I, p); g_iu = g_cu = g_lock = g_unlock = g_depth = g_log = 0; g_iu_flags = 0; g_env_seen = NULL; g_inst = I; return I; }",
          "static ModelInstance OLD; ",
          "#define MI ((ModelInstance *)instance)" if ver == 3 else "#define MI ((ModelInstance *)c)",
          "static inline _Bool same_id(const ModelInstance *a, const ModelInstance *b) { return a->instanceName == b->instanceName && a->type == b->type && a->resourceLocation == b->resourceLocation && a->logger == b->logger && a->intermediateUpdate == b->intermediateUpdate && a->clockUpdate == b->clockUpdate && a->lockPreemption == b->lockPreemption && a->unlockPreemption == b->unlockPreemption && a->componentEnvironment == b->componentEnvironment; }",
          "static inline _Bool same_log(const ModelInstance *a, const ModelInstance *b) { return a->logEvents == b->logEvents && a->logErrors == b->logErrors; }",
          "static inline _Bool same_flags(const ModelInstance *a, const ModelInstance *b) { return a->earlyReturnAllowed == b->earlyReturnAllowed && a->eventModeUsed == b->eventModeUsed; }",
          "static inline _Bool same_limits(const ModelInstance *a, const ModelInstance *b) { return DEQ(a->startTime, b->startTime) && DEQ(a->stopTime, b->stopTime); }",
          "static inline _Bool same_time(const ModelInstance *a, const ModelInstance *b) { return DEQ(a->time, b->time); }",
          "static inline _Bool same_comm(const ModelInstance *a, const ModelInstance *b) { return DEQ(a->nextCommunicationPoint, b->nextCommunicationPoint); }",
          "static inline _Bool same_steps(const ModelInstance *a, const ModelInstance *b) { return a->nSteps == b->nSteps; }",
          "static inline _Bool same_evt(const ModelInstance *a, const ModelInstance *b) { return a->newDiscreteStatesNeeded == b->newDiscreteStatesNeeded && a->terminateSimulation == b->terminateSimulation && a->nominalsOfContinuousStatesChanged == b->nominalsOfContinuousStatesChanged && a->valuesOfContinuousStatesChanged == b->valuesOfContinuousStatesChanged && a->nextEventTimeDefined == b->nextEventTimeDefined && DEQ(a->nextEventTime, b->nextEventTime) && a->clocksTicked == b->clocksTicked; }",
          "static inline _Bool same_data(const ModelInstance *a, const ModelInstance *b) { return %s; }" % same_fields(df, "a->modelData.", "b->modelData."),
          "static inline _Bool same_all(const ModelInstance *a, const ModelInstance *b) { return same_id(a, b) && same_log(a, b) && same_flags(a, b) && same_limits(a, b) && same_time(a, b) && same_comm(a, b) && same_steps(a, b) && same_evt(a, b) && same_data(a, b); }"]
    return "\n".join(L)

def mode_in(modes, expr): return "(" + (" || ".join("%s == %s" % (expr, m) for m in modes) or "0") + ")"
def units(ver): return [(m, ver) for m in (MODELS3 if ver == 3 else MODELS2)]
def selfname(ver): return "instance" if ver == 3 else "c"
ERR = {2: "fmi2Error", 3: "fmi3Error"}
OKS = {2: "fmi2OK", 3: "fmi3OK"}
