"""Loops over caller lists of any length outside the plain variable access: clocks, derivative products, log categories.  The loops carry
loop contracts over arrays of symbolic size; the function called for each element is replaced by its contract; an arbitrary position
IN.k (or row IN.w) stands for every position.  Rewritten loops fall back to the bounded job of the owning check."""
from models import *
MAXN = "0x10000000000"

def loops(fn, specs):
    """contracts for several loops of fn: specs = [(index among the real loops in program order of their ends, assigns, invariant, locals)]"""
    def make(ctx, gb):
        out = None
        for which, asg, inv, loc in specs:
            c = loop_contract(fn, asg, inv, loc, ("real", which))(ctx, gb)
            if out is None: out = c
            else: out["functions"][0][fn] += c["functions"][0][fn]
        return out
    return make
def conj(xs): return " && ".join("(%s)" % one(x) for x in xs)

# ---- clocks
def clock_job(kind):
    """fmi3GetClock, fmi3SetClock, fmi3GetIntervalDecimal: one call per reference in order, first refusal ends the list"""
    fn, inner = {"get": ("fmi3GetClock", "getClock"), "set": ("fmi3SetClock", "activateClock"), "interval": ("fmi3GetIntervalDecimal", "getInterval")}[kind]
    p = protos(3)[fn]
    spec = ["static int g_err; static size_t g_calls; static uint32_t *VR; static _Bool *B, WANTB, OKK; static double *IV, WANTI; static uint32_t VRK; static int BK, g_seen; static fmi3IntervalQualifier *Q; static int WANTQ;", "#ifndef REPLAY", "_Bool nondet_refuse(void); double nondet_d(void); int nondet_i(void);"]
    par = {"get": ", bool *value", "set": "", "interval": ", double *interval, int *qualifier"}[kind]
    pos = {"get": "value == B + g_calls", "set": "1", "interval": "interval == IV + g_calls && qualifier == (int *)(Q + g_calls)"}[kind]
    act = {"get": "*value = g_calls == IN.k ? WANTB : nondet_refuse();", "set": "", "interval": "if (g_calls == IN.k) { *interval = WANTI; *qualifier = WANTQ; } else { *interval = nondet_d(); *qualifier = nondet_i(); }"}[kind]
    if kind == "set":
        # only references whose value is true are activated; the arbitrary position IN.k must be among the calls exactly then
        spec += ["Status activateClock(ModelInstance *comp, ValueReference vr) {", "  __CPROVER_assert(comp == g_inst && !g_err, \"ens:each-clock-once-in-order\");", "  if (nondet_refuse()) { g_err = 1; return Error; }", "  if (vr == VRK) g_seen = 1; g_calls = g_calls + 1; return OK; }", "#endif"]
    else:
        spec += ["Status %s(ModelInstance *comp, ValueReference vr%s) {" % (inner, par), "  __CPROVER_assert(comp == g_inst && !g_err && g_calls < IN.n && vr == VR[g_calls] && %s, \"ens:each-clock-once-in-order\");" % pos,
                 "  if (g_calls == IN.k ? !OKK : nondet_refuse()) { g_err = 1; return Error; }", "  %s g_calls = g_calls + 1; return OK; }" % act, "#endif"]
    S = ["  __CPROVER_assume(valid_in(&IN.inst) && IN.n <= %s && IN.okk <= 1 && IN.b <= 1); instance = (void *)mk_instance(&IN.inst); OLD = *g_inst; g_err = 0; g_calls = 0; OKK = IN.okk; WANTB = IN.b; WANTI = IN.iv; WANTQ = IN.q;" % MAXN,
         "  VR = malloc(IN.n * sizeof(uint32_t)); B = malloc(IN.n * sizeof(_Bool)); IV = malloc(IN.n * sizeof(double)); Q = malloc(IN.n * sizeof(fmi3IntervalQualifier)); __CPROVER_assume(VR != NULL && B != NULL && IV != NULL && Q != NULL);",
         "  valueReferences = VR; nValueReferences = IN.n; %s" % ("intervals = IV; qualifiers = Q;" if kind == "interval" else "values = B;")]
    if kind == "set": S.append("  g_seen = 0; BK = IN.k < IN.n ? B[IN.k] : 0; VRK = IN.k < IN.n ? VR[IN.k] : 0;")
    want = {"get": "B[IN.k] == WANTB", "interval": "((unsigned long *)IV)[IN.k] == *(unsigned long *)&WANTI && Q[IN.k] == WANTQ"}.get(kind)
    inv = ["i <= IN.n && status == 0 && g_err == 0"] + (["g_calls == i && (IN.k >= i || OKK)", "IN.k >= i || (%s)" % want] if want else ["g_calls <= i", "IN.k >= i || !BK || g_seen"])
    asg = "i, status, g_err, g_calls" + {"get": ", __CPROVER_object_whole(B)", "interval": ", __CPROVER_object_whole(IV), __CPROVER_object_whole(Q)", "set": ", g_seen"}[kind]
    ens = [("accepted-or-refused", "RETV == fmi3OK ? MI->state == OLD.state : RETV == fmi3Error && MI->state == Terminated"), ("refused-exactly-when-a-clock-is", "(RETV == fmi3OK) == !g_err")]
    if want: ens += [("every-clock", "IMP(RETV == fmi3OK, g_calls == IN.n)"), ("values-in-order", "IMP(RETV == fmi3OK && IN.k < IN.n, OKK && %s)" % want.replace("(unsigned long *)", "(uint64_t *)"))]
    else: ens += [("active-clock-activated", "IMP(RETV == fmi3OK && IN.k < IN.n && BK, g_seen)")]
    asgn = ["g_inst->state", "g_log", "g_err", "g_calls", "g_seen"] + {"get": ["__CPROVER_object_whole(B)"], "interval": ["__CPROVER_object_whole(IV)", "__CPROVER_object_whole(Q)"], "set": []}[kind]
    return Job("Clocks3.%s.anylength" % fn, fmu_unit("Clocks", 3), Contract.of(p, requires=["instance != NULL && %s" % mode_in(ALLOWED3[fn], "MI->state")], assigns=asgn, ensures=ens), inputs="struct inst_in inst; size_t n, k; uint8_t okk, b; double iv; int q;", decls=inst_decls("Clocks", 3),
               spec_decls="\n".join(spec), setup="\n".join(S), canaries=[("long", "IN.n > 1000 && RET == fmi3OK"), ("refused", "RET != fmi3OK")], unwind=4, mem=True, assigns_decide=True, replay=False, removed=("logError", "logEvent", inner),
               loop_contracts=loop_contract(fn, asg, conj(inv), ["i", "status"], "real"), solver="cadical")

# ---- derivative products
def product_job(model, ver, kind):
    """directional and adjoint derivatives for any number of unknowns and knowns: every partial derivative is requested once and in order; with a
    single non-zero entry of the Jacobian, at an arbitrary place (IN.w, IN.v), result IN.w is the seed IN.v and every other one zero, so each
    entry is multiplied with its own seed and added to its own result (sums of several entries bit for bit: the bounded jobs of c20)"""
    fn = {("dir", 3): "fmi3GetDirectionalDerivative", ("adj", 3): "fmi3GetAdjointDerivative", ("dir", 2): "fmi2GetDirectionalDerivative"}[kind, ver]
    p = protos(ver)[fn]; me = selfname(ver); P = [x[1] for x in p.params]
    spec = ["static uint32_t *U, *K; static double *SD, *SN; static size_t NO, NS, g_row, g_col; static int g_err; static double SDV, T;", "#ifndef REPLAY", "double nondet_pd(void); _Bool nondet_refuse(void);",
            "Status getPartialDerivative(ModelInstance *comp, ValueReference unknown, ValueReference known, double *partialDerivative) {",
            "  __CPROVER_assert(comp == g_inst && partialDerivative != NULL && !g_err && g_row < NO && g_col < NS && unknown == U[%s] && known == K[%s], \"ens:each-partial-derivative-once-in-order\");" % (("g_row", "g_col") if kind == "dir" else ("g_col", "g_row")),
            "  if (nondet_refuse()) { g_err = 1; return Error; }", "  __CPROVER_assume(SD[g_col] - SD[g_col] == 0); *partialDerivative = g_row == IN.w0 && g_col == IN.v ? 1.0 : 0.0;", "  g_col = g_col + 1; if (g_col == NS) { g_col = 0; g_row = g_row + 1; } return OK; }", "#endif"]
    no, ns = ("IN.nu", "IN.nk") if kind == "dir" else ("IN.nk", "IN.nu")
    S = ["  __CPROVER_assume(valid_in(&IN.inst) && IN.nu <= %s && IN.nk <= %s); %s = (void *)mk_instance(&IN.inst); OLD = *g_inst; NO = %s; NS = %s; g_row = g_col = 0; g_err = 0;" % (MAXN, MAXN, me, no, ns),
         "  U = malloc(IN.nu * sizeof(uint32_t)); K = malloc(IN.nk * sizeof(uint32_t)); SD = malloc(NS * sizeof(double)); SN = malloc(NO * sizeof(double)); __CPROVER_assume(U != NULL && K != NULL && SD != NULL && SN != NULL);",
         "  SDV = IN.v < NS ? SD[IN.v] : 0.0; T = IN.w == IN.w0 ? SDV : 0.0; __CPROVER_assume(SDV - SDV == 0);"]
    vals = ["U", "IN.nu", "K", "IN.nk", "SD"] + (["NS", "SN", "NO"] if ver == 3 else ["SN"])
    S += ["  %s = %s;" % (n, v) for n, v in zip(P[1:], vals)]
    oinv = ["i <= NO && status == 0 && g_err == 0", "NS == 0 ? g_row == 0 && g_col == 0 : g_row == i && g_col == 0", "IN.w >= i || SN[IN.w] == T"]
    iinv = ["i < NO && j <= NS && status == 0 && g_err == 0", "NS == 0 ? g_row == 0 && g_col == 0 : j < NS ? g_row == i && g_col == j : g_row == i + 1 && g_col == 0", "IN.w >= i || SN[IN.w] == T", "IN.w != i || SN[IN.w] == (IN.v < j ? T : 0.0)"]
    asg = "status, g_err, g_row, g_col, __CPROVER_object_whole(SN)"
    ens = [("accepted-or-refused", "RETV == %s ? MI->state == OLD.state : RETV == %s && MI->state == Terminated" % (OKS[ver], ERR[ver])), ("refused-exactly-when-a-derivative-is", "(RETV == %s) == !g_err" % OKS[ver]),
           ("every-derivative", "IMP(RETV == %s && NS > 0, g_row == NO && g_col == 0)" % OKS[ver]), ("entry-times-seed", "IMP(RETV == %s && IN.w < NO, SN[IN.w] == T)" % OKS[ver])]
    al = (ALLOWED3 if ver == 3 else ALLOWED2)[fn]
    return Job("%s%d.%s.anysize" % (model, ver, fn), fmu_unit(model, ver), Contract.of(p, requires=["%s != NULL && %s" % (me, mode_in(al, "MI->state"))], assigns=["g_inst->state", "g_log", "g_err", "g_row", "g_col", "__CPROVER_object_whole(SN)"], ensures=ens),
               inputs="struct inst_in inst; size_t nu, nk, w, w0, v;", decls=inst_decls(model, ver), spec_decls="\n".join(spec), setup="\n".join(S), canaries=[("large", "IN.nu > 100 && IN.nk > 100 && RET == %s" % OKS[ver]), ("refused", "RET != %s" % OKS[ver])],
               unwind=4, assigns_decide=True, replay=False, removed=("logError", "logEvent", "getPartialDerivative"), loop_contracts=loops(fn, [(0, "j, " + asg, conj(iinv), ["i", "j", "status"]), (1, "i, " + asg, conj(oinv), ["i", "status"])]), solver="cadical")

# ---- log categories
def category_job(model, ver):
    """setDebugLogging for any number of categories of any length: a category switches its own flag, null or unknown ones are refused"""
    fn = "setDebugLogging"
    spec = ["static const char **CATS; static int KK, g_err, g_ev, g_er;", "#ifndef REPLAY", "int __CPROVER_uninterpreted_kind(unsigned long);", "static int kind(const char *p) { int k = __CPROVER_uninterpreted_kind((unsigned long)p); return k == 1 || k == 2 ? k : 0; }",
            "int strcmp(const char *a, const char *b) { __CPROVER_assert(a != NULL, \"ens:category-not-null\"); int k = kind(a), q = b[3] == 'E' ? 1 : 2; if (k != q) return 1; if (k == 1) g_ev = 1; else g_er = 1; return 0; }", "#else", "#define kind(p) 0", "#endif"]
    S = ["  __CPROVER_assume(valid_in(&IN.inst) && IN.n <= %s && IN.on <= 1 && IN.nul <= 1); comp = (void *)mk_instance(&IN.inst); OLD = *g_inst; g_ev = g_er = 0; loggingOn = IN.on; nCategories = IN.n;" % MAXN,
         "  CATS = malloc(IN.n * sizeof(char *)); __CPROVER_assume(CATS != NULL); categories = IN.nul ? NULL : CATS; KK = IN.k < IN.n ? (CATS[IN.k] == NULL ? 0 : kind(CATS[IN.k])) : 0;"]
    inv = ["i <= IN.n", "IN.k >= i || KK != 0", "IN.k >= i || (KK == 1 ? g_ev != 0 : g_er != 0)", "g_inst->logEvents == (g_ev ? IN.on : OLD.logEvents)", "g_inst->logErrors == (g_er ? IN.on : OLD.logErrors)", "i > 0 || (g_ev == 0 && g_er == 0)"]
    ens = [("null-refused", "IMP(IN.n > 0 && IN.nul, RETV == Error && comp->logEvents == OLD.logEvents && comp->logErrors == OLD.logErrors)"), ("unknown-refused", "IMP(RETV == OK && IN.n > 0 && IN.k < IN.n, KK != 0)"), ("all", "IMP(IN.n == 0, RETV == OK && comp->logEvents == IN.on && comp->logErrors == IN.on)"),
           ("named-categories-switched", "IMP(RETV == OK && IN.k < IN.n, KK == 1 ? comp->logEvents == IN.on : comp->logErrors == IN.on)"), ("others-kept", "IMP(RETV == OK && IN.n > 0, comp->logEvents == (g_ev ? IN.on : OLD.logEvents) && comp->logErrors == (g_er ? IN.on : OLD.logErrors))"), ("status", "RETV == OK || RETV == Error")]
    params = [("ModelInstance *", "comp", ""), ("bool", "loggingOn", ""), ("size_t", "nCategories", ""), ("const char *const", "categories", "[]")]
    return Job("%s%d.setDebugLogging.anylength" % (model, ver), fmu_unit(model, ver), Contract("Status", fn, params, requires=["comp == g_inst"], assigns=["g_inst->logEvents", "g_inst->logErrors", "g_log", "g_ev", "g_er"], ensures=ens), inputs="struct inst_in inst; size_t n, k; uint8_t on, nul;", decls=inst_decls(model, ver),
               spec_decls="\n".join(spec), setup="\n".join(S), canaries=[("long", "IN.n > 1000 && RET == OK"), ("refused", "RET != OK && !IN.nul")], unwind=4, mem=True, assigns_decide=True, replay=False, loop_contracts=loop_contract(fn, "i, g_inst->logEvents, g_inst->logErrors, g_ev, g_er", conj(inv), ["i"], "real"), solver="cadical")

def deep(make, size, last):
    """the proof for any length; where the loop contract does not fit rewritten code: lists up to size without it; where the called function is used
    in another way: the bounded job last"""
    j = make()
    if not size: j.fallback, j.fallback_on_fail = last, True; return j
    def mid():
        d = make(); d.loop_contracts = None; d.name = d.name.rsplit(".", 1)[0] + ".upto%d" % size; d.kind = "bounded"; d.bound = "lists of at most %d elements" % size; d.unwind = size + 2; d.mem = d.assigns_decide = False
        d.setup = d.setup.replace(MAXN, str(size)); d.canaries = [(n, c.replace("> 1000", "== %d" % size).replace("> 100", "== %d" % size)) for n, c in d.canaries]
        d.fallback, d.fallback_on_fail = last, lambda fails: any(f["name"].startswith("each-") or f["class"] in ("assigns", "mem") for f in fails)
        return d
    j.fallback, j.fallback_on_fail = mid, True
    return j
