"""Importer side: units, prototypes of the wrappers and stand-ins for the loaded FMU."""
import re
from core import *
HDR = {2: "FMI2.h", 3: "FMI3.h"}

def imp_protos(ver):
    """prototypes of the importer functions declared in FMI2.h/FMI3.h"""
    t = strip_comments(read("%s/include/%s" % (REPO, HDR[ver])))
    out = {}
    for m in re.finditer(r"FMI_STATIC\s+([\w\s\*]+?)\s*\b(FMI%d\w+)\s*\(([^;]*?)\)\s*;" % ver, t, re.S):
        ps = []
        for a in m.group(3).split(","):
            a = " ".join(a.split()); s = ""
            if a.endswith("[]"): a, s = a[:-2].strip(), "[]"
            k = re.match(r"(.*?[\s\*])(\w+)$", a)
            ps.append((k.group(1).strip(), k.group(2), s))
        out[m.group(2)] = Proto(" ".join(m.group(1).split()), m.group(2), ps)
    if len(out) < 30: raise ToolError("importer prototypes not found")
    return out

def table(ver):
    """names of the entries of the function table"""
    t = strip_comments(read("%s/include/%s" % (REPO, HDR[ver])))
    b = re.search(r"struct FMI%dFunctions_ \{(.*?)\};" % ver, t, re.S)
    if not b: raise ToolError("function table not found")
    return re.findall(r"\*\s*(fmi%d\w+)\s*;" % ver, b.group(1))

def strip_comments(t):
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    return re.sub(r"//[^\n]*", " ", t)

def imp_unit(ver, extra=(), name=""):
    return Unit("imp%d%s" % (ver, name), ["%s/src/FMI%d.c" % (REPO, ver)], ["-DIMPVER=%d" % ver, "-I%s/include" % REPO, "-include", VERIF + "/spec/impshim.h"] + list(extra), ['#include "%s"' % HDR[ver]])

STATUS = {3: "fmi3Status", 2: "fmi2Status"}
# importer instance with arbitrary bookkeeping, loggers and the stand-ins for the call-log buffer
INST = r"""
static FMI%(v)dFunctions TAB; static FMIInstance II, OLDI; static char LB[4]; static char COMP[2], NAME[2]; static int UD;
static int ncalls, nwrong, nlog, logst; static _Bool log_ok, fmt_ok, arr_ok; static const char *lastmsg;
static void cb_call(FMIInstance *i, FMIStatus s, const char *m) { nlog++; logst = (int)s; if (i != &II || !m) log_ok = 0; lastmsg = m; }
static void cb_msg(FMIInstance *i, FMIStatus s, const char *c, const char *m) { (void)i; (void)s; (void)c; (void)m; }
void FMIClearLogMessageBuffer(FMIInstance *i) { if (i != &II) log_ok = 0; }
void vf_append(FMIInstance *i, int n, const char *f, ...) { int k = 0; if (i != &II) log_ok = 0; for (int j = 0; f[j]; j++) if (f[j] == '%%') { if (f[j + 1] == '%%') j++; else k++; } if (k > n) fmt_ok = 0; }
static void mk_ii(void) {
  II.fmi1Functions = NULL; II.fmi2Functions = NULL; II.fmi3Functions = NULL; II.fmi%(v)dFunctions = &TAB; II.libraryHandle = NULL; II.userData = &UD;
  II.logMessage = IN.msg ? cb_msg : NULL; II.logFunctionCall = IN.log ? cb_call : NULL; II.logMessageBuffer = LB; II.logMessageBufferSize = 4; II.logMessageBufferPosition = 0;
  II.component = COMP; II.name = NAME; II.logFMICalls = IN.lfc; II.state = (FMIState)IN.state; II.status = (FMIStatus)IN.ist; II.fmiMajorVersion = FMIMajorVersion%(v)d; II.interfaceType = (FMIInterfaceType)IN.itype;
  ncalls = nwrong = nlog = 0; logst = -1; log_ok = fmt_ok = arr_ok = 1; lastmsg = NULL; }
static _Bool same_ii(void) { return II.fmi%(v)dFunctions == &TAB && II.libraryHandle == OLDI.libraryHandle && II.userData == OLDI.userData && II.logMessage == OLDI.logMessage && II.logFunctionCall == OLDI.logFunctionCall && II.name == OLDI.name && II.interfaceType == OLDI.interfaceType && II.fmiMajorVersion == OLDI.fmiMajorVersion; }
static _Bool in_ok(void) { return IN.msg <= 1 && IN.log <= 1 && IN.lfc <= 1 && IN.itype >= 0 && IN.itype <= %(mt)d && IN.ist >= 0 && IN.ist <= 4 && (IN.state == 1 || IN.state == 2 || IN.state == 4 || IN.state == 8 || IN.state == 16 || IN.state == 32 || IN.state == 64 || IN.state == 128 || IN.state == 256 || IN.state == 512) && IN.st >= 0 && IN.st <= %(ms)d && IN.n <= 3 && IN.m <= 3; }
static _Bool eqd(double a, double b) { union { double d; uint64_t u; } x, y; x.d = a; y.d = b; return x.u == y.u; }
"""
INPUTS = "uint8_t msg, log, lfc; int itype, ist, state, st; size_t n, m; uint8_t nul[12];"
def inst_text(ver): return INST % {"v": ver, "mt": 2 if ver == 3 else 1, "ms": 4 if ver == 3 else 5}

SCALAR = ("fmi3Float64", "fmi2Real", "double")
def base(t): return re.sub(r"\bconst\b", "", t).replace("*", "").strip()
def is_ptr(t, s): return s == "[]" or "*" in t
ELEM = {"fmi3FMUState": "void *", "fmi2FMUstate": "void *", "fmi3String": "const char *", "fmi2String": "const char *", "fmi3Binary": "const fmi3Byte *"}

def wrapper_job(ver, fn, ens, tag=""):
    """one wrapper; ens(info) -> ensures"""
    ip = imp_protos(ver)[fn]; fmu = fn.replace("FMI%d" % ver, "fmi%d" % ver); fp = protos(ver)[fmu]
    P, F = ip.params, fp.params
    nocomp = fmu in ("fmi3GetVersion", "fmi2GetVersion", "fmi2GetTypesPlatform")
    if not nocomp and len(P) != len(F): raise ToolError("parameters of %s and %s differ" % (fn, fmu))
    D = []; S = ["  __CPROVER_assume(in_ok()); mk_ii(); %s = &II;" % P[0][1]]; inputs = [INPUTS]; fwd = []; outs = []; caps = []
    rec = []; cnt = 0
    for k in range(1, len(P)):
        t, n, s = P[k]; ft, fnm, fs = F[k]; b = base(ft)
        if is_ptr(ft, fs) and b != "fmi2CallbackFunctions":
            const = ft.startswith("const") or " const" in ft
            el = ELEM.get(b, b)
            D.append("static %s BUF%d[3]; static const void *R%d;" % (el, k, k)); rec.append("R%d = (const void *)%s;" % (k, fnm))
            arr = fs == "[]"
            S.append("  %s = %s ? NULL : (void *)BUF%d;" % (n, "IN.nul[%d]" % k if arr else "(IN.nul[%d] && !IN.log)" % k, k))
            S.append("  __CPROVER_assume(IN.nul[%d] <= 1);" % k)
            fwd.append("R%d == (const void *)%s" % (k, n))
            if not const:
                if "*" in el or b in ELEM:
                    D.append("static char W%d[2];" % k); rec.append("if (%s) ((void **)%s)[0] = (void *)W%d;" % (fnm, fnm, k)); outs.append("IMP(%s != NULL, (const void *)BUF%d[0] == (const void *)W%d)" % (n, k, k))
                elif b == "fmi2EventInfo":
                    inputs.append("int w%d; double wt%d;" % (k, k)); rec.append("if (%s) { %s->newDiscreteStatesNeeded = IN.w%d; %s->nextEventTime = IN.wt%d; }" % (fnm, fnm, k, fnm, k)); outs.append("IMP(%s != NULL, BUF%d[0].newDiscreteStatesNeeded == IN.w%d && eqd(BUF%d[0].nextEventTime, IN.wt%d))" % (n, k, k, k, k))
                else:
                    inputs.append("%s w%d;" % ("uint8_t" if b in ("fmi3Boolean", "fmi3Clock") else "unsigned" if b in ("fmi3IntervalQualifier", "fmi3DependencyKind", "fmi2Status") else el, k))
                    if b in ("fmi3Boolean", "fmi3Clock"): S.append("  __CPROVER_assume(IN.w%d <= 1);" % k)
                    rec.append("if (%s) %s[0] = (%s)IN.w%d;" % (fnm, fnm, el, k))
                    eq = "eqd((double)BUF%d[0], (double)IN.w%d)" if b in SCALAR else "__builtin_memcmp_(BUF%d, IN.w%d)" if b == "fmi3Float32" else "BUF%d[0] == (%s)IN.w%%d" % (k, el)
                    if b == "fmi3Float32": eq = "eqf(BUF%d[0], IN.w%d)" % (k, k)
                    elif b in SCALAR: eq = eq % (k, k)
                    else: eq = "BUF%d[0] == (%s)IN.w%d" % (k, el, k)
                    outs.append("IMP(%s != NULL, %s)" % (n, eq))
        elif re.search(r"Callback|Environment|FMU[sS]tate$", ft) or "*" in ft or ft in ("fmi3String", "fmi2String"):
            D.append("static char OPQ%d[2]; static const void *R%d;" % (k, k)); rec.append("R%d = (const void *)%s;" % (k, fnm))
            S.append("  __CPROVER_assume(IN.nul[%d] <= 1); %s = (void *)(IN.nul[%d] ? NULL : OPQ%d);" % (k, n, k, k)); fwd.append("R%d == (const void *)%s" % (k, n))
        else:
            ty = "uint8_t" if b in ("fmi3Boolean", "fmi3Clock") else b
            if b == "size_t" and n.lower().startswith("n"):
                S.append("  %s = IN.%s;" % (n, "n" if cnt == 0 else "m")); cnt += 1
            else:
                inputs.append("%s a%d;" % (ty, k))
                if ty == "uint8_t": S.append("  __CPROVER_assume(IN.a%d <= 1);" % k)
                S.append("  %s = (%s)IN.a%d;" % (n, base(t), k))
            D.append("static %s R%d;" % (base(ft), k)); rec.append("R%d = %s;" % (k, fnm))
            fwd.append("eqd(R%d, %s)" % (k, n) if b in SCALAR else "R%d == %s" % (k, n))
    arrs = [(k, P[k][1]) for k in range(1, len(P)) if is_ptr(F[k][0], F[k][2]) and F[k][2] == "[]"]
    arrdef = "void FMIAppendArrayToLogMessageBuffer(FMIInstance *i, const void *v, size_t n, const size_t s[], FMIVariableType t) { (void)s; (void)t; if (i != &II) log_ok = 0; if (n > 0 && !(n == IN.n || n == IN.m)) arr_ok = 0; if (n > 0 && v != NULL%s) arr_ok = 0; }" % "".join(" && v != (const void *)BUF%d" % k for k, _ in arrs)
    # stand-in of the FMU function and of every other entry of the table
    ret = {"void": "", STATUS[ver]: "return (%s)IN.st;" % STATUS[ver]}.get(fp.ret, "return VER;")
    D.append("static const char VER[4] = \"v\"; static void *C0;")
    stub = "static %s { ncalls++; %s %s %s }" % (Proto(fp.ret, "S_" + fmu, F).decl(), "" if nocomp else "C0 = (void *)%s;" % F[0][1], " ".join(rec), ret)
    others = []; fill = ["  TAB.%s = S_%s;" % (fmu, fmu)]
    for o in table(ver):
        if o == fmu: continue
        q = protos(ver)[o]; r = {"void": "", STATUS[ver]: "return (%s)0;" % STATUS[ver]}.get(q.ret, "return NULL;")
        others.append("static %s { nwrong++; %s }" % (Proto(q.ret, "O_" + o, q.params).decl(), r)); fill.append("  TAB.%s = O_%s;" % (o, o))
    S += fill
    if ver == 3: inputs.append("uint8_t emu;"); S.append("  __CPROVER_assume(IN.emu <= 1); TAB.eventModeUsed = IN.emu;")
    S.append("  OLDI = II;")
    info = dict(fn=fn, fmu=fmu, ver=ver, fwd=fwd, outs=outs, nocomp=nocomp, ret=ip.ret, arrs=arrs)
    req = ["%s != NULL" % P[0][1]]
    if fmu == "fmi3ExitConfigurationMode": req.append("IN.state == 16 || IN.state == 32")
    j = Job("%s%s" % (fn, tag), imp_unit(ver), Contract.of(ip, requires=req, assigns=[], ensures=ens(info)), inputs=" ".join(inputs), decls="", spec_decls=inst_text(ver) + "static _Bool eqf(float a, float b) { union { float d; uint32_t u; } x, y; x.d = a; y.d = b; return x.u == y.u; }\n" + "\n".join(D) + "\n" + arrdef + "\n" + stub + "\n" + "\n".join(others),
            setup="\n".join(S), canaries=[("logged", "IN.log"), ("quiet", "!IN.log"), ("ok", "IN.st == 0"), ("failed", "IN.st == 3")], unwind=400, enforce=False, removed=(), mem=True, timeout=100)
    return j
