"""C12: instantiation and release of instances."""
import re
from models import *
import c09

def token(model, ver):
    t = read("%s/%s/FMI%d.xml" % (REPO, model, ver))
    return re.search(r'(?:instantiationToken|guid)\s*=\s*"([^"]*)"', t).group(1)

# stand-ins for the allocator: concrete objects, a ledger of live blocks, allocation number OOM fails
LIB = """#ifndef REPLAY
static ModelInstance g_new; static char C1[4], C2[4], C3[4]; static int na, live0, live1, live2, live3, OOM;
static _Bool oom(void) { return na++ == OOM; }
static char *cblock(size_t n) { __CPROVER_assert(n <= 4, "ens:block-size"); if (oom()) return NULL; if (!live1) { live1 = 1; return C1; } if (!live2) { live2 = 1; return C2; } __CPROVER_assert(!live3, "ens:number-of-blocks"); live3 = 1; return C3; }
void *malloc(size_t n) { if (n != sizeof(ModelInstance)) return cblock(n); if (oom()) return NULL; __CPROVER_assert(!live0, "ens:number-of-blocks"); live0 = 1; ModelInstance u; g_new = u; return &g_new; }
void *calloc(size_t a, size_t n) { if (a * n != sizeof(ModelInstance)) { char *c = cblock(a * n); if (c) { for (int i = 0; i < 4; i++) c[i] = 0; } return c; } if (oom()) return NULL; __CPROVER_assert(!live0, "ens:number-of-blocks"); live0 = 1; static const ModelInstance z; g_new = z; return &g_new; }
size_t strlen(const char *s) { __CPROVER_assert(s != NULL, "ens:null-string"); size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { __CPROVER_assert(a != NULL && b != NULL, "ens:null-string"); size_t n = 0; while (a[n] && a[n] == b[n]) n++; return (unsigned char)a[n] - (unsigned char)b[n]; }
char *strdup(const char *s) { __CPROVER_assert(s != NULL, "ens:null-string"); char *d = cblock(strlen(s) + 1); if (d) { for (int i = 0; i < 4; i++) { d[i] = s[i]; if (!s[i]) break; } } return d; }
void free(void *p) {
  if (!p) return;
  if (p == (void *)&g_new) { __CPROVER_assert(live0 == 1, "ens:freed-once"); live0 = 0; }
  else if (p == (void *)C1) { __CPROVER_assert(live1 == 1, "ens:freed-once"); live1 = 0; }
  else if (p == (void *)C2) { __CPROVER_assert(live2 == 1, "ens:freed-once"); live2 = 0; }
  else if (p == (void *)C3) { __CPROVER_assert(live3 == 1, "ens:freed-once"); live3 = 0; }
  else __CPROVER_assert(0, "ens:only-own-memory-freed");
}
#define LIVE (live0 + live1 + live2 + live3)
#define LIB0(k) na = live0 = live1 = live2 = live3 = 0; OOM = k
#else
#define LIVE -1
#define LIB0(k)
#endif
static inline _Bool live_is(int n) { return LIVE < 0 || LIVE == n; }
static inline _Bool streq(const char *a, const char *b) { for (int i = 0; i < 8; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
"""

FNS = {3: ("fmi3InstantiateModelExchange", "fmi3InstantiateCoSimulation", "fmi3InstantiateScheduledExecution"), 2: ("fmi2Instantiate",)}
def supported(model, fn): return ("Scheduled" in fn) == (model == "Clocks")

def inst_job(model, ver, fn, oom):
    tok = token(model, ver); n = len(tok)
    p = protos(ver)[fn]
    me = {x[1]: x for x in p.params}
    S = ["  __CPROVER_assume(IN.nn <= 1 && IN.nt <= 1 && IN.nr <= 1 && IN.on <= 1 && IN.emu <= 1 && IN.era <= 1 && IN.l <= 1 && IN.iu <= 1 && IN.cu <= 1 && IN.lk <= 1 && IN.ul <= 1 && IN.vis <= 1 && IN.me <= 1 && IN.nf <= 1);",
         "  for (int i = 0; i < 3; i++) { NAME[i] = IN.name[i]; RES[i] = IN.res[i]; } NAME[3] = RES[3] = 0; for (int i = 0; i <= %d; i++) TOK[i] = IN.tok[i]; TOK[%d] = 0;" % (n, n + 1),
         "  g_log = 0; LIB0(%d);" % oom]
    lg = "(IN.l ? (void *)cb_logger : NULL)"
    def val(nm):
        t, _, s = me[nm]
        if nm in ("instanceName",): return "IN.nn ? NULL : NAME"
        if nm in ("instantiationToken", "fmuGUID"): return "IN.nt ? NULL : TOK"
        if nm in ("resourcePath", "fmuResourceLocation"): return "IN.nr ? NULL : RES"
        if nm == "loggingOn": return "IN.on"
        if nm == "visible": return "IN.vis"
        if nm == "eventModeUsed": return "IN.emu"
        if nm == "earlyReturnAllowed": return "IN.era"
        if nm == "instanceEnvironment": return "&g_env"
        if nm == "logMessage": return lg
        if nm == "intermediateUpdate": return "IN.iu ? (void *)cb_iu : NULL"
        if nm == "clockUpdate": return "IN.cu ? (void *)cb_cu : NULL"
        if nm == "lockPreemption": return "IN.lk ? (void *)cb_lock : NULL"
        if nm == "unlockPreemption": return "IN.ul ? (void *)cb_unlock : NULL"
        if nm == "fmuType": return "IN.me ? fmi2ModelExchange : fmi2CoSimulation"
        if nm == "functions": return "IN.nf ? NULL : &CB"
        return "0"
    if ver == 2: S.append("  fmi2CallbackFunctions cb = { %s, NULL, NULL, NULL, &g_env }; *(fmi2CallbackFunctions *)&CB = cb;" % lg)
    S += ["  %s = %s;" % (nm, val(nm)) for nm in me]
    okay = "(!IN.nn && NAME[0] && !IN.nt && TOKEN_OK)"
    if ver == 2: okay = "(!IN.nf && IN.l && %s)" % okay
    if ver == 3 and fn.endswith("CoSimulation") and model not in EVENTS: okay = "(!IN.emu && %s)" % okay
    if ver == 3 and not supported(model, fn): okay = "0"
    fails = {-1: "0", 0: "1", 1: "1", 2: "!IN.nr"}[oom]
    good = "(%s && !(%s))" % (okay, fails)
    R = "((ModelInstance *)RETV)"
    E = [("refused", "IMP(!%s, RETV == NULL)" % good), ("nothing-leaked", "IMP(RETV == NULL, live_is(0))"), ("created", "IMP(%s, RETV != NULL)" % good)]
    if ver == 3 and supported(model, fn) or ver == 2:
        typ = "(IN.me ? ModelExchange : CoSimulation)" if ver == 2 else "ModelExchange" if "Exchange" in fn else "CoSimulation" if "CoSim" in fn else "ScheduledExecution"
        cs = ver == 3 and "CoSim" in fn; se = ver == 3 and "Sched" in fn
        D = [("name", "R->instanceName != NULL && R->instanceName != NAME && streq(R->instanceName, NAME)"), ("resource-location", "IN.nr ? R->resourceLocation == NULL : R->resourceLocation != NULL && R->resourceLocation != RES && R->resourceLocation != R->instanceName && streq(R->resourceLocation, RES)"),
             ("owned-blocks", "live_is(2 + !IN.nr)"), ("type", "R->type == %s" % typ), ("logger", "(void *)R->logger == %s" % lg), ("environment", "R->componentEnvironment == (void *)&g_env"),
             ("intermediate-update", "(void *)R->intermediateUpdate == %s" % ("(IN.iu ? (void *)cb_iu : NULL)" if cs else "NULL")),
             ("clock-callbacks", "(void *)R->clockUpdate == %s && (void *)R->lockPreemption == %s && (void *)R->unlockPreemption == %s" % (("(IN.cu ? (void *)cb_cu : NULL)", "(IN.lk ? (void *)cb_lock : NULL)", "(IN.ul ? (void *)cb_unlock : NULL)") if se else ("NULL",) * 3)),
             ("settings", "R->earlyReturnAllowed == %s && R->eventModeUsed == %s" % (("IN.era", "IN.emu") if cs else ("0", "0"))), ("logging", "R->logEvents == IN.on && R->logErrors"),
             ("start-values", c09.started(model, ver, "R"))] + c09.clean(model, "R")
        E += [(nm, "RETV == NULL || (%s)" % re.sub(r"\bR->", R + "->", e)) for nm, e in D]
    spec = LIB + "static char NAME[4], RES[4], TOK[%d]; \n#define TOKEN_OK (" % (n + 2) + " && ".join("TOK[%d] == %s" % (i, "'%s'" % c if c not in "'\\" else ord(c)) for i, c in enumerate(tok)) + " && TOK[%d] == 0)\n" % n
    if ver == 2: spec += "static char CB[sizeof(fmi2CallbackFunctions)] __attribute__((aligned(16)));\n" if False else "static struct { void *a, *b, *c, *d, *e; } CB;\n"
    inputs = "uint8_t nn, nt, nr, on, emu, era, l, iu, cu, lk, ul, vis, me, nf; char name[3], res[3], tok[%d];" % (n + 1)
    if ver == 2: S = [s.replace("&CB;", "(const fmi2CallbackFunctions *)&CB;") for s in S]
    can = [("refused", "RET == NULL")] + ([("created", "RET != NULL")] if okay != "0" and fails != "1" else [])
    return Job("%s%d.%s%s" % (model, ver, fn, "" if oom < 0 else ".oom%d" % oom), fmu_unit(model, ver), Contract.of(p, requires=[], assigns=[], ensures=E),
               inputs=inputs, decls=inst_decls(model, ver), spec_decls=spec, setup="\n".join(S), canaries=can, unwind=130 if model == "Feedthrough" else n + 4, enforce=False, kind="bounded" if False else "complete")

def free_job(model, ver):
    fn = "fmi%dFreeInstance" % ver
    me = selfname(ver)
    S = ["  __CPROVER_assume(IN.nr <= 1); LIB0(-1);", "#ifdef REPLAY", "  ModelInstance *I = calloc(1, sizeof(ModelInstance)); I->instanceName = strdup(\"a\"); I->resourceLocation = IN.nr ? NULL : strdup(\"b\");", "#else",
         "  ModelInstance *I = &g_new, u; g_new = u; live0 = live1 = 1; live2 = !IN.nr; I->instanceName = C1; I->resourceLocation = IN.nr ? NULL : C2; C1[1] = C2[1] = 0;", "#endif", "  %s = I;" % me]
    return [Job("%s%d.%s" % (model, ver, fn), fmu_unit(model, ver), Contract.of(protos(ver)[fn], requires=[], assigns=[], ensures=[("everything-released", "live_is(0)")]), inputs="uint8_t nr;", decls=inst_decls(model, ver), spec_decls=LIB, setup="\n".join(S), canaries=[("returned", "1")], enforce=False),
            Job("%s%d.%s.null" % (model, ver, fn), fmu_unit(model, ver), Contract.of(protos(ver)[fn], requires=[], assigns=[], ensures=[("nothing-done", "live_is(0)")]), inputs="uint8_t nr;", decls=inst_decls(model, ver), spec_decls=LIB, setup="  LIB0(-1); %s = NULL;" % me, canaries=[("returned", "1")], enforce=False)]

def jobs():
    out = []
    for v in (3, 2):
        for m, _ in units(v):
            for fn in FNS[v]:
                out.append(inst_job(m, v, fn, -1))
                if v == 2 or supported(m, fn): out += [inst_job(m, v, fn, k) for k in (0, 1, 2)]
            out += free_job(m, v)
    return out

ASSUME = ["the allocator and string functions are replaced by stand-ins over concrete blocks (allocation number k fails in the .oomK jobs; others succeed); freed blocks are tracked in a ledger",
          "instance name and resource location have at most 3 characters, the token at most one more than the declared one; longer strings only differ beyond the first mismatch or copied text",
          "logError/logEvent bodies replaced by stubs that only count (their real bodies are verified by C23)"]
