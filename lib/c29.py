"""C29: instantiation through the importer (and mode tracking, see c27); C32: symbol loading."""
from imp import *
import c27

ME2 = "EnterEventMode NewDiscreteStates EnterContinuousTimeMode CompletedIntegratorStep SetTime SetContinuousStates GetDerivatives GetEventIndicators GetContinuousStates GetNominalsOfContinuousStates".split()
CS2 = "SetRealInputDerivatives GetRealOutputDerivatives DoStep CancelStep GetStatus GetRealStatus GetIntegerStatus GetBooleanStatus GetStringStatus".split()
def required(ver, itype):
    t = table(ver)
    if ver == 3: return t
    drop = CS2 if itype == 0 else ME2
    return [n for n in t if n[4:] not in drop]

def hashes(names):
    for mul in range(31, 2000, 2):
        H = {}
        for n in names:
            h = 0
            for c in n: h = (h * mul + ord(c)) & 0xffff
            H[h] = n
        if len(H) == len(names): return mul, H
    raise ToolError("no hash")

def loader(ver, itype):
    t = table(ver); mul, H = hashes(t); n = len(t)
    inst = [x for x in t if "Instantiate" in x]
    L = ["static char SYM[%d]; static char HANDLE[2]; static _Bool dl_ok; static int nmiss_msg; static int nalloc;" % n]
    L.append("static const char *const NM[%d] = {%s};" % (n, ", ".join('"%s"' % x for x in t)))
    L.append("static int lookup(const char *s) { unsigned h = 0; for (int i = 0; (s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z') || (s[i] >= '0' && s[i] <= '9') || s[i] == '_'; i++) h = (h * %du + (unsigned char)s[i]) & 0xffffu; int k; switch (h) { %s default: return -1; } for (int i = 0; i < 60; i++) { if (!NM[k][i]) return k; if (NM[k][i] != s[i]) return -1; } return -1; }" % (mul, " ".join("case %d: k = %d; break;" % (h, t.index(x)) for h, x in H.items())))
    for x in inst: L.append(Proto("static " + protos(ver)[x].ret, "S_" + x, protos(ver)[x].params).decl() + ";")
    L.append("void *vf_dlsym(void *h, const char *s) { int k = lookup(s); if (h != (void *)HANDLE) dl_ok = 0; if (k < 0) { dl_ok = 0; return NULL; } if (IN.miss[k]) return NULL; %s return (void *)&SYM[k]; }" % " ".join("if (k == %d) return (void *)S_%s;" % (t.index(x), x) for x in inst))
    L.append("void *vf_calloc(size_t a, size_t b) { if (a * b != sizeof(TAB)) return NULL; nalloc++; if (IN.oom) return NULL; static FMI%dFunctions Z; TAB = Z; return &TAB; }" % ver)
    req = required(ver, itype)
    L.append("static _Bool any_missing(void) { return %s; }" % " || ".join("IN.miss[%d]" % t.index(x) for x in req))
    L.append("static _Bool all_bound(void) { return %s; }" % " && ".join("(void *)TAB.%s == %s" % (x, "(void *)S_" + x if x in inst else "(void *)&SYM[%d]" % t.index(x)) for x in req))
    return "\n".join(L), n

def inst_job(ver, fn, itype, sel):
    """sel: bind (C32) or hand (C29)"""
    ip = imp_protos(ver)[fn]; P = ip.params; fmu = fn.replace("FMI", "fmi"); F = protos(ver)[fmu].params
    ld, n = loader(ver, itype)
    t = table(ver)
    extra = ["-Ddlsym=vf_dlsym", "-Dcalloc=vf_calloc", "-Dvsnprintf=vf_vsnprintf"]
    inputs = INPUTS + " uint8_t miss[%d], oom, comp; char text[3]; int lst;" % n
    base_txt = inst_text(ver).replace("static void cb_msg(FMIInstance *i, FMIStatus s, const char *c, const char *m) { (void)i; (void)s; (void)c; (void)m; }",
        "static int nmsg, msgst; static _Bool msg_ok; static char CAT[2]; static int lookup(const char *s); static int missname;\n"
        "static void cb_msg(FMIInstance *i, FMIStatus s, const char *c, const char *m) { nmsg++; msgst = (int)s; if (i != &II) msg_ok = 0; if (phase) { if (c != CAT) msg_ok = 0; for (int k = 0; k < 3; k++) { if (m[k] != TEXT[k]) { msg_ok = 0; break; } if (!m[k]) break; } } "
        "else { int k = 0; while (m[k] && !(m[k] == 'f' && m[k + 1] == 'm' && m[k + 2] == 'i')) k++; missname = m[k] ? lookup(&m[k]) : -1; if (missname >= 0 && !IN.miss[missname]) msg_ok = 0; } }")
    D = ["static char TEXT[3]; static int phase;", base_txt, ld,
         "void FMIAppendArrayToLogMessageBuffer(FMIInstance *i, const void *v, size_t n, const size_t s[], FMIVariableType t) { (void)i; (void)v; (void)n; (void)s; (void)t; }",
         "int vf_vsnprintf(char *b, size_t n, const char *f, va_list ap) { (void)ap; size_t i = 0; if (n > FMI_MAX_MESSAGE_LENGTH) msg_ok = 0; for (; i + 1 < n && f[i]; i++) b[i] = f[i]; if (n) b[i] = 0; return (int)i; }",
         "int FMILogErrorDummy;"]
    S = ["  __CPROVER_assume(in_ok() && IN.oom <= 1 && IN.comp <= 1); mk_ii(); %s = &II; II.fmi%dFunctions = NULL; II.component = NULL; II.libraryHandle = HANDLE; II.fmiMajorVersion = (FMIMajorVersion)0; II.state = FMIStartAndEndState;" % (P[0][1], ver)]
    S += ["  for (int k = 0; k < 2; k++) TEXT[k] = IN.text[k]; TEXT[2] = 0; phase = 0; nmsg = 0; msgst = -1; msg_ok = 1; dl_ok = 1; nalloc = 0; missname = -1; cap_log = NULL;"]
    if sel == "hand": S += ["  for (int k = 0; k < %d; k++) IN.miss[k] = 0;" % n]
    else: S += ["  for (int k = 0; k < %d; k++) __CPROVER_assume(IN.miss[k] <= 1);" % n]
    fwd = []; rec = []
    pn = [p[1] for p in P]
    for k, (ty, nm, sx) in enumerate(F):
        b = base(ty)
        if nm in ("instanceName",):
            D.append("static const void *R%d;" % k); rec.append("R%d = %s;" % (k, nm)); fwd.append("R%d == NAME" % k); continue
        if nm in ("instanceEnvironment",):
            D.append("static const void *R%d;" % k); rec.append("R%d = %s;" % (k, nm)); fwd.append("R%d == (void *)&II" % k); continue
        if nm == "logMessage" and ver == 3:
            D.append("static fmi3LogMessageCallback cap_log;"); rec.append("cap_log = %s;" % nm); fwd.append("(cap_log != NULL) == (IN.msg != 0)"); continue
        if b == "fmi2CallbackFunctions":
            D.append("static const fmi2CallbackFunctions *cap_log;"); rec.append("cap_log = %s;" % nm)
            fwd.append("cap_log != NULL && cap_log->componentEnvironment == (void *)&II && cap_log->logger != NULL && cap_log->allocateMemory != NULL && cap_log->freeMemory != NULL"); continue
        if nm not in pn: raise ToolError("parameter %s of %s has no counterpart" % (nm, fmu))
        pt = P[pn.index(nm)][0]
        if b in ("fmi3Boolean", "fmi2Boolean", "fmi2Type", "size_t"):
            D.append("static %s R%d;" % (b, k)); rec.append("R%d = %s;" % (k, nm)); fwd.append("R%d == %s" % (k, nm))
            if b == "fmi2Type": S.append("  %s = (fmi2Type)%d;" % (nm, itype))
            else:
                inputs += " %s a%d;" % ("uint8_t" if b == "fmi3Boolean" else b, k)
                if b == "fmi3Boolean": S.append("  __CPROVER_assume(IN.a%d <= 1);" % k)
                S.append("  %s = IN.a%d;" % (nm, k))
        else:
            D.append("static char OPQ%d[2]; static const void *R%d;" % (k, k)); rec.append("R%d = (const void *)%s;" % (k, nm)); fwd.append("R%d == (const void *)%s" % (k, nm))
            S.append("  __CPROVER_assume(IN.nul[%d %% 12] <= 1); %s = (void *)(IN.nul[%d %% 12] ? NULL : OPQ%d);" % (k, nm, k, k))
    for nm in pn[1:]:
        if nm not in [f[1] for f in F]: S.append("  %s = NULL;" % nm)
    if not any("cap_log;" in d for d in D): D.append("static void *cap_log;")
    D.append("static " + Proto(protos(ver)[fmu].ret, "S_" + fmu, F).decl() + " { ncalls++; %s return IN.comp ? (void *)COMP : NULL; }" % " ".join(rec))
    for x in [x for x in t if "Instantiate" in x and x != fmu]: D.append("static " + Proto(protos(ver)[x].ret, "S_" + x, protos(ver)[x].params).decl() + " { nwrong++; return NULL; }")
    S.append("  OLDI = II;")
    err = "((int)RETV == FMIError || (int)RETV == FMIFatal)"
    good = "(!any_missing() && !IN.oom)"
    post = ""
    if sel == "bind":
        E = [("refused", "IMP(any_missing() || IN.oom, %s && ncalls == 0 && nwrong == 0 && (int)II.state != FMIInstantiatedState)" % err),
             ("missing-name-reported", "IMP(any_missing() && !IN.oom && IN.msg, nmsg == 1 && msgst >= FMIError && missname >= 0 && msg_ok)"),
             ("all-bound", "IMP(%s, all_bound() && dl_ok && II.fmi%dFunctions == &TAB && ncalls == 1 && nwrong == 0)" % (good, ver)),
             ("accepted", "IMP(%s && IN.comp, RETV == FMIOK)" % good)]
        can = [("bound", good), ("missing", "any_missing() && !IN.oom"), ("oom", "IN.oom"), ("quiet", "any_missing() && !IN.msg")]
    else:
        logcall = {3: "if (cap_log) cap_log(&II, (fmi3Status)IN.lst, CAT, TEXT);", 2: "if (cap_log && cap_log->logger) cap_log->logger(cap_log->componentEnvironment, \"n\", (fmi2Status)IN.lst, CAT, TEXT);"}[ver]
        S.append("  __CPROVER_assume(IN.lst >= 0 && IN.lst <= 4);")
        post = "  phase = 1; nmsg = 0; msg_ok = 1; if (ncalls) { %s }" % logcall
        E = [("handed-over", "IMP(!IN.oom, ncalls == 1 && nwrong == 0 && %s)" % " && ".join("(%s)" % f for f in fwd)),
             ("recorded", "IMP(!IN.oom && IN.comp, RETV == FMIOK && II.component == (void *)COMP && (int)II.interfaceType == %d && II.state == FMIInstantiatedState && (int)II.fmiMajorVersion == %d%s)" % (itype, ver, " && TAB.eventModeUsed == eventModeUsed" if fmu == "fmi3InstantiateCoSimulation" else "")),
             ("refusal-reported", "IMP(IN.oom || !IN.comp, %s && (int)II.state != FMIInstantiatedState)" % err),
             ("logged-once", "IMP(!IN.oom, nlog == (IN.log ? 1 : 0) && IMP(IN.log, logst == (IN.comp ? FMIOK : FMIError) && log_ok))"),
             ("messages-reach-the-logger", "IMP(ncalls, nmsg == (IN.msg ? 1 : 0) && IMP(IN.msg, msgst == IN.lst && msg_ok))"),
             ("instance", "II.name == OLDI.name && II.libraryHandle == OLDI.libraryHandle && II.logMessage == OLDI.logMessage && II.logFunctionCall == OLDI.logFunctionCall")]
        can = [("instantiated", "!IN.oom && IN.comp"), ("refused", "!IN.oom && !IN.comp"), ("message", "nmsg == 1 && TEXT[0] && TEXT[1]")]
    j = Job("%s.%s.%s" % (fn, {0: "me", 1: "cs", 2: "se"}[itype], sel), imp_unit(ver, extra, "L"), Contract.of(ip, requires=["%s != NULL" % P[0][1]], assigns=[], ensures=E), inputs=inputs, decls="", spec_decls="\n".join(D), setup="\n".join(S), post=post,
            canaries=can, unwind=420, enforce=False, removed=(), mem=True, timeout=150)
    return j

def insts(): return [(3, "FMI3InstantiateModelExchange", 0), (3, "FMI3InstantiateCoSimulation", 1), (3, "FMI3InstantiateScheduledExecution", 2), (2, "FMI2Instantiate", 0), (2, "FMI2Instantiate", 1)]
def jobs29(): return [inst_job(v, f, i, "hand") for v, f, i in insts()] + c27.track_jobs()
def jobs32(): return [inst_job(v, f, i, "bind") for v, f, i in insts()]
ASSUME = c27.ASSUME[:1] + ["library lookup (dlsym), allocation and formatting of FMU log messages are replaced by stand-ins; the lookup stand-in knows the functions of the table in FMI2.h/FMI3.h", "FMU log messages carry no format conversions and up to two characters"]
