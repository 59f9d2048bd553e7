"""C23: log settings and message delivery."""
from models import *
import lists

LIB = """#ifndef REPLAY
static char C1[8]; static int live, nfmt; static _Bool OOM;
void *calloc(size_t a, size_t n) { __CPROVER_assert(a * n <= 8 && !live, "ens:one-buffer"); if (OOM) return NULL; live = 1; for (int i = 0; i < 8; i++) C1[i] = i < a * n ? 0 : 'z'; BS = a * n; return C1; }
void *malloc(size_t n) { __CPROVER_assert(n <= 8 && !live, "ens:one-buffer"); if (OOM) return NULL; live = 1; BS = n; return C1; }
void free(void *p) { if (!p) return; __CPROVER_assert(p == (void *)C1 && live, "ens:freed-once"); live = 0; }
int vsnprintf(char *b, size_t n, const char *f, va_list a) {
  nfmt++; __CPROVER_assert(f == FMT, "ens:format-used"); __CPROVER_assert(n == 0 || (b == C1 ? live && n <= BS : __CPROVER_w_ok(b, n)), "ens:message-within-buffer");
  if (IN.len < 0) return IN.len;
  for (size_t i = 0; i + 1 < n && i < (size_t)IN.len; i++) b[i] = 'X';
  if (n) b[(size_t)IN.len < n ? (size_t)IN.len : n - 1] = 0;
  return IN.len;
}
#define NOLEAK (!live)
#define WANT "XXXXXX"
#else
#define NOLEAK 1
#define WANT "123456"
#endif
static int ncall; static _Bool cb_ok;
static inline _Bool cat_is(const char *a, const char *b) { for (int i = 0; i < 20; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
static inline _Bool text_ok(const char *m) { for (int i = 0; i < IN.len; i++) if (m[i] != WANT[i]) return 0; return m[IN.len] == 0; }
"""
CB = {3: "static void cb2(void *env, int status, const char *category, const char *message) { ncall++; cb_ok = env == (void *)&g_env && status == EXPECT && cat_is(category, EXPCAT) && text_ok(message); }",
      2: "static void cb2(void *env, const char *name, int status, const char *category, const char *message, ...) { ncall++; cb_ok = env == (void *)&g_env && name == g_name && status == EXPECT && cat_is(category, EXPCAT) && text_ok(message); }"}

def log_job(model, ver, fn, oom):
    ev = fn == "logEvent"
    spec = "static const char FMT[4] = \"%s\"; static size_t BS;\n" + LIB + "#define EXPECT %s\n#define EXPCAT \"%s\"\n" % (("OK", "logEvents") if ev else ("Error", "logStatusError")) + CB[ver]
    spec += "\nstatic ModelInstance *comp_; void LF(ModelInstance *c) { static const char T[8] = \"123456\"; char t[8]; for (int i = 0; i < 8; i++) t[i] = 0; for (int i = 0; i < IN.len; i++) t[i] = T[i]; %s(c, FMT, t); }" % fn
    S = ["  __CPROVER_assume(valid_in(&IN.inst) && IN.nul <= 1 && IN.len >= %s && IN.len <= 6);" % ("-1" if not oom else "0"), "#ifdef REPLAY", "  __CPROVER_assume(IN.len >= 0);", "#else", "  live = nfmt = 0; OOM = %d;" % oom, "#endif",
         "  c = mk_instance(&IN.inst); ncall = 0; cb_ok = 0; g_obj.logger = IN.inst.hasLogger ? (void *)cb2 : NULL; OLD = g_obj; if (IN.nul) c = NULL;"]
    on = "(!IN.nul && IN.inst.hasLogger && IN.inst.%s && IN.len >= 0)" % ("logEvents" if ev else "logErrors")
    E = [("delivered-when-enabled", "IMP(%s, ncall == 1)" % on if not oom else "ncall <= 1"), ("silent-otherwise", "IMP(!%s, ncall == 0)" % on), ("content", "IMP(ncall > 0, cb_ok)"), ("buffer-released", "NOLEAK"),
         ("instance-unchanged", "same_all(&g_obj, &OLD) && g_obj.state == OLD.state")]
    can = [("delivered", on)] if not oom else []
    return Job("%s%d.%s%s" % (model, ver, fn, ".oom" if oom else ""), fmu_unit(model, ver), Contract("void", "LF", [("ModelInstance *", "c", "")], requires=[], assigns=[], ensures=E),
               inputs="struct inst_in inst; uint8_t nul; int len;", decls=inst_decls(model, ver), spec_decls=spec, setup="\n".join(S), canaries=can + [("silent", "!%s" % on)], unwind=22, enforce=False, removed=(), kind="bounded") 

def set_job(model, ver, n, null=False):
    fn = "fmi%dSetDebugLogging" % ver
    p = protos(ver)[fn]; nm = [x[1] for x in p.params]
    allowed = (ALLOWED3 if ver == 3 else ALLOWED2)[fn]
    S = ["  __CPROVER_assume(valid_in(&IN.inst) && IN.on <= 1); %s = (void *)mk_instance(&IN.inst); OLD = g_obj; __CPROVER_assume(%s);" % (nm[0], mode_in(allowed, "g_obj.state") if isinstance(allowed, (list, tuple)) else "1"),
         "  for (int k = 0; k < %d; k++) { __CPROVER_assume(IN.nul[k] <= 1); for (int i = 0; i < 16; i++) CAT[k][i] = IN.cat[k][i]; CAT[k][16] = 0; }" % max(n, 1)]
    S += ["  CATS[%d] = IN.nul[%d] ? NULL : CAT[%d];" % (k, k, k) for k in range(n)]
    S += ["  %s = IN.on; %s = %d; %s = %s;" % (nm[1], nm[2], n, nm[3], "NULL" if null else "CATS")]
    me = "MI"
    bad = "1" if null and n else " || ".join("!KNOWN(%d)" % k for k in range(n)) or "0"
    E = [("refused", "IMP(%s, RETV == %s)" % (bad, ERR[ver])), ("accepted", "IMP(!(%s), RETV == %s && MI->state == OLD.state)" % (bad, OKS[ver]))]
    evs = " || ".join("IS(%d, \"logEvents\")" % k for k in range(n)) or "0"; ers = " || ".join("IS(%d, \"logStatusError\")" % k for k in range(n)) or "0"
    if n: E += [("events", "IMP(!(%s), MI->logEvents == ((%s) ? IN.on : OLD.logEvents))" % (bad, evs)), ("errors", "IMP(!(%s), MI->logErrors == ((%s) ? IN.on : OLD.logErrors))" % (bad, ers))]
    else: E += [("events", "MI->logEvents == IN.on"), ("errors", "MI->logErrors == IN.on")]
    E += [("rest-unchanged", "same_id(MI, &OLD) && same_flags(MI, &OLD) && same_limits(MI, &OLD) && same_time(MI, &OLD) && same_comm(MI, &OLD) && same_steps(MI, &OLD) && same_evt(MI, &OLD) && same_data(MI, &OLD)")]
    spec = """static char CAT[%d][17]; static const char *CATS[%d];
static inline _Bool cat_is(const char *a, const char *b) { for (int i = 0; i < 17; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
#define IS(k, s) (!IN.nul[k] && cat_is(CAT[k], s))
#define KNOWN(k) (IS(k, "logEvents") || IS(k, "logStatusError"))
""" % (max(n, 1), max(n, 1))
    can = [("accepted", "!(%s)" % bad)] if bad != "1" else []
    if n: can.append(("refused", bad))
    return Job("%s%d.%s.%d%s" % (model, ver, fn, n, "null" if null else ""), fmu_unit(model, ver), Contract.of(p, requires=["%s != NULL" % nm[0]], assigns=["__CPROVER_object_whole(g_inst)", "g_log"], ensures=E),
               inputs="struct inst_in inst; uint8_t on, nul[%d]; char cat[%d][16];" % (max(n, 1), max(n, 1)), decls=inst_decls(model, ver), spec_decls=spec, setup="\n".join(S), canaries=can, unwind=19, kind="complete" if n == 0 or null else "bounded")

def jobs():
    out = []
    for v in (3, 2):
        for m, _ in units(v):
            out += [log_job(m, v, f, o) for f in ("logError", "logEvent") for o in (0, 1)]
            out += [set_job(m, v, 0), set_job(m, v, 0, True), set_job(m, v, 1), set_job(m, v, 2), set_job(m, v, 1, True)]
            out.append(lists.deep(lambda m=m, v=v: lists.category_job(m, v), 10, lambda m=m, v=v: set_job(m, v, 2)))
    for j in out:
        if j.kind == "bounded": j.bound = "messages of at most 6 characters" if ".log" in j.name else "at most 2 categories of at most 16 characters"
    return out

ASSUME = ["vsnprintf is replaced by a stand-in that reports an arbitrary length of at most 6 characters (or failure) and writes that many characters, truncated to the given size", "the allocator is replaced by a stand-in with a ledger of live blocks"]
