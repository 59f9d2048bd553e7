"""C09: FMU states, C10: serialization, C11: reset."""
from models import *

FN = {3: ("fmi3GetFMUState", "fmi3SetFMUState", "fmi3SerializedFMUStateSize", "fmi3SerializeFMUState", "fmi3DeserializeFMUState", "fmi3FreeFMUState", "fmi3Reset"),
      2: ("fmi2GetFMUstate", "fmi2SetFMUstate", "fmi2SerializedFMUstateSize", "fmi2SerializeFMUstate", "fmi2DeSerializeFMUstate", "fmi2FreeFMUstate", "fmi2Reset")}
INPUTS = "struct inst_in inst, src;"

# what a restored instance shares with the instance that was saved
def restored(model, a="MI", b="&SRC"):
    E = [("time", "same_time(%s, %s)"), ("start-and-stop-time", "same_limits(%s, %s)"), ("mode", "%s->state == (%s)->state"), ("event-information", "same_evt(%s, %s)"), ("step-counter", "same_steps(%s, %s)"),
         ("communication-point", "same_comm(%s, %s)"), ("step-settings", "same_flags(%s, %s)"), ("variables", "same_data(%s, %s)")]
    E = [(n, e % (a, b)) for n, e in E]
    E.append(("pending-recalculation", "IMP((%s)->isDirtyValues, %s->isDirtyValues)" % (b, a)))
    nx, nz = NX.get(model, 0), NZ.get(model, 0)
    if nz: E.append(("indicator-memory", " && ".join(["%s->nz == (%s)->nz" % (a, b)] + ["IMP(%d < (%s)->nz, DEQ(%s->prez[%d], (%s)->prez[%d]))" % (i, b, a, i, b, i) for i in range(nz)])))
    if nx: E.append(("state-count", "%s->nx == (%s)->nx" % (a, b)))
    return E

KEPT = [("identity-kept", "same_id(MI, &OLD)"), ("logging-kept", "same_log(MI, &OLD)")]
DECL = """static ModelInstance SRC, g_src, g_tmp; static char g_name2[2] = "y", g_res2[2] = "q", g_env2;
static void *ST0;
static ModelInstance *mk_source(const struct inst_in *p) { fill_instance(&g_src, p); g_src.instanceName = g_name2; g_src.resourceLocation = g_res2; g_src.componentEnvironment = &g_env2; SRC = g_src; return &g_src; }
#ifdef REPLAY
#define MUST(x) do { if (!(x)) { printf("ENSURES-FAILED preparation\\n"); return 1; } } while (0)
#define CAN(x) MUST(x)
#else
#define MUST(x) __CPROVER_assert(x, "ens:preparation")
#define CAN(x) __CPROVER_assume(x)   /* only lack of memory may make these fail; see the separate jobs */
#endif"""

def base(model, ver):
    me = selfname(ver)
    return ["  __CPROVER_assume(valid_in(&IN.inst) && valid_in(&IN.src)); %s = (void *)mk_instance(&IN.inst); OLD = g_obj; mk_source(&IN.src);" % me]

# typed stand-ins for the C library: every block of the size of an instance is a fresh object; a grown block always moves
POOL = """#ifndef REPLAY
static ModelInstance P0, P1, P2, P3; static int np, nfree; static void *FREED;
static void *pool(void) { int k = np++; __CPROVER_assert(k < 4, "ens:allocations"); return k == 0 ? (void *)&P0 : k == 1 ? (void *)&P1 : k == 2 ? (void *)&P2 : (void *)&P3; }
void *realloc(void *p, size_t n) { if (n != sizeof(ModelInstance)) { __CPROVER_assert(0, "ens:allocations"); return NULL; } ModelInstance *q = pool(); if (p) { *q = *(ModelInstance *)p; FREED = p; nfree++; } return q; }
void *calloc(size_t a, size_t n) { if (a * n != sizeof(ModelInstance)) { __CPROVER_assert(0, "ens:allocations"); return NULL; } ModelInstance *q = pool(); static const ModelInstance Z; *q = Z; return q; }
void *memcpy(void *d, const void *s, size_t n) {
  __CPROVER_assert(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "ens:copy-within-objects");
  if (n == sizeof(ModelInstance)) *(ModelInstance *)d = *(const ModelInstance *)s;
  else if (n == sizeof(ModelData)) *(ModelData *)d = *(const ModelData *)s;
  else if (n % 8 == 0) { for (size_t i = 0; i < n / 8; i++) ((double *)d)[i] = ((const double *)s)[i]; }
  else { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; }
  return d;
}
#define POOL0 np = nfree = 0
void *malloc(size_t n) { if (n != sizeof(ModelInstance)) { __CPROVER_assert(0, "ens:allocations"); return NULL; } return pool(); }
#define NEWBUF(n) ((char *)&g_buf)
#define AT(n) np = n
#define FIX(st, n) __CPROVER_assume(st == (void *)&P##n); st = (void *)&P##n   /* keeps the pointer concrete for the solver */
#else
#define NEWBUF(n) (g_bp = malloc(n))
#define AT(n)
#define FIX(st, n)
#define POOL0
#endif
"""
def fixed_counts(model):
    """concrete (configured) sizes of the solver memory of the saved instance"""
    return "".join("  g_src.%s = SRC.%s = g_obj.%s = OLD.%s = %d;" % (f, f, f, f, n[model]) for f, n in (("nx", NX), ("nz", NZ)) if model in n)

def mk(model, ver, fn, name, req, ens, can, S, pre="", spec="", assigns=("__CPROVER_object_whole(g_inst)", "g_log"), **kw):
    p = protos(ver)[fn]
    kw.setdefault("unwind", 6)
    return Job("%s%d.%s%s" % (model, ver, fn, name), fmu_unit(model, ver), Contract.of(p, requires=["%s != NULL" % selfname(ver)] + req, assigns=list(assigns), ensures=ens),
               inputs=INPUTS, decls=inst_decls(model, ver), spec_decls=DECL + "\n" + spec, setup="\n".join(S), pre_call=pre, canaries=can, **kw)

def par(ver, fn, k): return protos(ver)[fn].params[k][1]

# save an instance, restore into another (or the same) instance
def round_trip(model, ver, how):
    g, s = FN[ver][0], FN[ver][1]
    st = par(ver, s, 1)
    S = base(model, ver)
    ok = OKS[ver]
    if how == "other": pre = "  ST0 = NULL; CAN(%s(&g_src, &ST0) == %s && ST0 != NULL); FIX(ST0, 0); %s = ST0;" % (g, ok, st)
    elif how == "reused": pre = fixed_counts(model) + "  ST0 = NULL; CAN(%s(%s, &ST0) == %s); FIX(ST0, 0); AT(1); CAN(%s(&g_src, &ST0) == %s && ST0 != NULL); FIX(ST0, 1); g_tmp = g_obj; CAN(%s(&g_tmp, ST0) == %s); %s = ST0;" % (g, selfname(ver), ok, g, ok, s, ok, st)
    else: pre = "  SRC = g_obj; ST0 = NULL; CAN(%s(%s, &ST0) == %s && ST0 != NULL); FIX(ST0, 0); MUST(same_all(&g_obj, &SRC)); fill_instance(&g_obj, &IN.src); OLD = g_obj; %s = ST0;" % (g, selfname(ver), ok, st)
    E = [("succeeds", "RETV == %s" % ok)] + restored(model) + KEPT + ([("source-untouched", "same_all(&g_src, &SRC)")] if how != "same" else [])
    return mk(model, ver, s, "." + how, [], E, [("returned", "1"), ("differs", "OLD.time == 1 && SRC.time == 2")], S, "  POOL0;\n" + pre, POOL, enforce=how != "reused")

def get_job(model, ver):
    g = FN[ver][0]; st = par(ver, g, 1)
    E = [("instance-unchanged", "IMP(RETV == %s, same_all(MI, &OLD) && MI->state == OLD.state)" % OKS[ver]), ("state-object", "IMP(RETV == %s, ST0 != NULL && ST0 != (void *)MI)" % OKS[ver]),
         ("identity-kept", "same_id(MI, &OLD) && same_log(MI, &OLD) && same_data(MI, &OLD)"), ("out-of-memory", "RETV == %s || (RETV == %s && MI->state == Terminated)" % (OKS[ver], ERR[ver]))]
    return mk(model, ver, g, ".save", [], E, [("saved", "RETV == %s" % OKS[ver])], base(model, ver) + ["  ST0 = NULL; %s = &ST0;" % st], assigns=("__CPROVER_object_whole(g_inst)", "g_log", "ST0"))

def null_set(model, ver):
    s = FN[ver][1]
    E = [("refused", "RETV == %s && MI->state == Terminated" % ERR[ver]), ("rest-unchanged", "same_id(MI, &OLD) && same_log(MI, &OLD) && same_time(MI, &OLD) && same_limits(MI, &OLD) && same_evt(MI, &OLD) && same_data(MI, &OLD)")]
    return mk(model, ver, s, ".null", [], E, [("returned", "1")], base(model, ver) + ["  %s = NULL;" % par(ver, s, 1)])

def jobs09():
    out = []
    for v in (3, 2):
        for m, _ in units(v):
            out += [round_trip(m, v, h) for h in ("other", "reused", "same")] + [get_job(m, v), null_set(m, v)]
    return out

# ---- C10
SER = "static size_t N1, N2, N3; static char *BUF; static ModelInstance g_buf; static char *g_bp;\n"
def ser_pre(ver, upto):
    g, s, sz, se, de, fr, _ = FN[ver]
    ok = OKS[ver]
    L = ["  ST0 = NULL; CAN(%s(&g_src, &ST0) == %s && ST0 != NULL); FIX(ST0, 0); MUST(%s(&g_src, ST0, &N1) == %s);" % (g, ok, sz, ok)]
    L += ["  BUF = NEWBUF(N1);"]
    if upto >= 2: L += ["  MUST(%s(&g_src, ST0, (void *)BUF, N1) == %s); MUST(same_all(&g_src, &SRC));" % (se, ok)]
    return "\n".join(L)

def size_job(model, ver):
    sz = FN[ver][2]
    E = [("succeeds", "RETV == %s" % OKS[ver]), ("size-constant", "N2 == N1 && N1 > 0"), ("unchanged", "same_all(MI, &OLD)")]
    return mk(model, ver, sz, "", [], E, [("returned", "1")], base(model, ver), "  ST0 = NULL; CAN(%s(&g_src, &ST0) == %s); N1 = 0; MUST(%s(&g_src, ST0, &N1) == %s); %s = ST0; %s = &N2;" % (FN[ver][0], OKS[ver], sz, OKS[ver], par(ver, sz, 1), par(ver, sz, 2)),
              SER, ("__CPROVER_object_whole(g_inst)", "g_log", "N2"), enforce=False)

def ser_full(model, ver, existing):
    """save, serialize, deserialize, restore"""
    g, s, sz, se, de, fr, _ = FN[ver]
    ok, me = OKS[ver], selfname(ver)
    st = par(ver, s, 1)
    pre = fixed_counts(model) + ser_pre(ver, 2) + "\n  static void *ST2; ST2 = NULL;" + (" AT(1); CAN(%s(%s, &ST2) == %s); FIX(ST2, 1);" % (g, me, ok) if existing else "")
    pre += "\n  AT(2); CAN(%s(%s, (void *)BUF, N1, &ST2) == %s && ST2 != NULL); MUST(ST2 != ST0); FIX(ST2, %d); %s = ST2;" % (de, me, ok, 1 if existing else 2, st)
    E = [("succeeds", "RETV == %s" % ok)] + restored(model) + KEPT
    return mk(model, ver, s, ".serialized" + (".existing" if existing else ""), [], E, [("returned", "1")], base(model, ver), "  POOL0;\n" + pre, SER + POOL, enforce=False)

def ser_refused(model, ver, what):
    g, s, sz, se, de, fr, _ = FN[ver]
    me = selfname(ver)
    spec = SER + POOL + "static ModelInstance COPY; static void *STP;"
    rest = "same_id(MI, &OLD) && same_log(MI, &OLD) && same_time(MI, &OLD) && same_limits(MI, &OLD) && same_evt(MI, &OLD) && same_data(MI, &OLD)"
    same = "same_all(%s, &COPY) && (%s)->state == COPY.state && same_id(%s, &COPY)"
    if what in ("null", "size"):
        pre = ser_pre(ver, 1) + "\n  fill_instance(&g_buf, &IN.inst); COPY = g_buf; %s = (void *)BUF; %s = %s; %s = %s;" % (par(ver, se, 2), par(ver, se, 1), "NULL" if what == "null" else "ST0", par(ver, se, 3), "N1" if what == "null" else "IN.n")
        if what == "size": pre += " __CPROVER_assume(IN.n != N1);"
        E = [("refused", "RETV == %s" % ERR[ver]), ("buffer-untouched", "BUF != (char *)&g_buf || (%s)" % (same % (("&g_buf",) * 3))), ("rest-unchanged", rest)]
        j = mk(model, ver, se, "." + what, [], E, [("returned", "1")], base(model, ver), "  POOL0;\n" + pre, spec, ("__CPROVER_object_whole(g_inst)", "g_log"), enforce=False)
    else:
        pre = ser_pre(ver, 2) + "\n  STP = %s; %s = (void *)BUF; %s = &STP; %s = IN.n; __CPROVER_assume(IN.n != N1); fill_instance(&g_buf, &IN.inst); COPY = *(ModelInstance *)ST0;" % ("NULL" if what == "dsize" else "ST0", par(ver, de, 1), par(ver, de, 3), par(ver, de, 2))
        E = [("refused", "RETV == %s" % ERR[ver]), ("state-object-untouched", "STP == NULL" if what == "dsize" else "STP == ST0 && (%s)" % (same % (("(ModelInstance *)ST0",) * 3))), ("rest-unchanged", rest)]
        j = mk(model, ver, de, "." + what, [], E, [("returned", "1")], base(model, ver), "  POOL0;\n" + pre, spec, ("__CPROVER_object_whole(g_inst)", "g_log", "STP"), enforce=False)
    j.inputs = INPUTS + " size_t n;"
    return j

def free_job(model, ver):
    fr = FN[ver][5]
    E = [("succeeds", "RETV == %s" % OKS[ver]), ("cleared", "ST0 == NULL"), ("unchanged", "same_all(MI, &OLD)")]
    return mk(model, ver, fr, "", [], E, [("returned", "1")], base(model, ver), "  ST0 = NULL; CAN(%s(&g_src, &ST0) == %s); %s = &ST0;" % (FN[ver][0], OKS[ver], par(ver, fr, 1)), "", ("__CPROVER_object_whole(g_inst)", "g_log", "ST0", "__CPROVER_object_whole(ST0)"))

def jobs10():
    out = []
    for v in (3, 2):
        for m, _ in units(v):
            out += [size_job(m, v), ser_full(m, v, False), ser_full(m, v, True)] + [ser_refused(m, v, w) for w in ("null", "size", "dsize", "dsize2")]
    return out

# ---- C11
START = {"BouncingBall": dict(h="1.0", v="0.0", g="-9.81", e="0.7"), "Dahlquist": dict(x="1.0", k="1.0"), "VanDerPol": dict(x0="2.0", x1="0.0", mu="1.0"), "Stair": dict(counter="1"), "Resource": {},
         "Roberts": dict(y1="1.0", y2="0.0", y3="0.0", dae="0"), "Clocks": {k: "0" for k in "inClock3_interval inClock3_qualifier outClock inClock1Ticks inClock2Ticks inClock3Ticks totalInClockTicks result2 input2 output3".split()}}

def started(model, ver, a="MI"):
    """every variable has its start value"""
    d = a + "->modelData."
    if model in START: c = ["%s%s == %s" % (d, f, v) for f, v in START[model].items()]
    elif model == "StateSpace":
        c = ["%s%s == 3" % (d, f) for f in "mnr"] + ["%s%s[%d][%d] == %d" % (d, M, i, j, i == j) for M in "ABCD" for i in range(5) for j in range(5)] + ["%su[%d] == %d" % (d, i, i + 1) for i in range(5)] + ["%s%s[%d] == 0" % (d, f, i) for f in ("x0", "x", "y") for i in range(5)]
    else:
        c = []
        for f, (t, dm) in [(x[1], (x[0], x[2])) for x in data_fields(model, ver)]:
            if f.startswith("String"): c += ["%s%s[%d] == %s" % (d, f, i, ch) for i, ch in enumerate(["'%s'" % x for x in "Set me!"] + ["0"])]
            elif f.startswith("Binary") and f.endswith("size"): c.append("%s%s == 3" % (d, f))
            elif f.startswith("Binary"): c += ["%s%s[%d] == '%s'" % (d, f, i, ch) for i, ch in enumerate("foo")]
            elif f.startswith("Enum"): c.append("%s%s == 1" % (d, f))
            else: c.append("%s%s == 0" % (d, f))
    return " && ".join(c) or "1"

def clean(model, a="MI"):
    E = [("mode", "%s->state == Instantiated" % a), ("time", "%s->time == 0 && %s->startTime == 0" % (a, a)), ("stop-time", "%s->stopTime == 0" % a), ("communication-point", "%s->nextCommunicationPoint == 0" % a), ("step-counter", "%s->nSteps == 0" % a), ("status", "%s->status == OK" % a),
         ("event-information", "!%s->newDiscreteStatesNeeded && !%s->terminateSimulation && !%s->nominalsOfContinuousStatesChanged && !%s->valuesOfContinuousStatesChanged && !%s->clocksTicked" % (a, a, a, a, a)),
         ("next-event", ("%s->nextEventTimeDefined && %s->nextEventTime == 1" if model == "Stair" else "!%s->nextEventTimeDefined && %s->nextEventTime == 0") % (a, a)), ("recalculated", "%s->isDirtyValues" % a)]
    return E

def reset_job(model, ver):
    E = [("succeeds", "RETV == %s" % OKS[ver])] + clean(model) + [("start-values", started(model, ver))] + KEPT + [("settings-kept", "same_flags(MI, &OLD)")]
    j = mk(model, ver, FN[ver][6], "", [], E, [("returned", "1"), ("from-step", "OLD.time == 5")], ["  __CPROVER_assume(valid_in(&IN.inst)); %s = (void *)mk_instance(&IN.inst); OLD = g_obj;" % selfname(ver)], unwind=130 if model == "Feedthrough" else 7)
    j.inputs = "struct inst_in inst;"
    return j

def jobs11(): return [reset_job(m, v) for v in (3, 2) for m, _ in units(v)]

ASSUME = ["logError/logEvent bodies replaced by stubs that only count (their real bodies are verified by C23)",
          "state objects are opaque; the tool's models of malloc, calloc, realloc, free, memcpy and strncpy are used for the C library",
          "the preparing calls (save, serialize) in the round-trip jobs are assumed to find memory; saving without memory is covered by the .save jobs"]
