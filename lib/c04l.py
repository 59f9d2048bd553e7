"""Variable access for request lists of any length: the loops of the access functions under loop contracts over arrays of symbolic
size, with the per-variable getter/setter of the model replaced by its contract (an executable specification); and that contract
discharged against the real getters/setters for every position and every number of values.  Both jobs are complete; where a loop
contract no longer fits rewritten code the bounded job of c04 takes its place."""
from models import *
import c04
from c04 import api, cty, veq, typed, wide, API2

def inner(ver, d, T): return d.lower() + T
MAXN = "0x10000000000"

def ubits(c): return {"double": "unsigned long", "float": "unsigned int"}.get(c)

def elem_stub(model, ver, d, T):
    """stands for the per-variable getter/setter inside the list function: checks that the k-th call is made for the k-th reference
    and, for setters, with the k-th value; accepts or refuses arbitrarily, except that the reference at the arbitrary position IN.k is
    accepted exactly if OKK and then delivers WANTK.  So the list function is verified for every per-variable behaviour; what the real
    getters and setters accept, deliver and store is proved by elem_job."""
    c = CT[T]
    L = ["static int g_err; static size_t g_calls; static uint32_t *VR, VRK; static %s *VV; static size_t NV; static %s WANTK; static _Bool OKK;%s" % (cty(ver, T), c, " static size_t *SZ, WANTSZ;" if T == "Binary" else ""), "#ifndef REPLAY",
         "%s nondet_value(void); _Bool nondet_refuse(void); size_t nondet_size(void);" % c]
    iface = "comp == g_inst && *index <= nValues"
    if not (ver == 2 and T == "Boolean"): iface += " && nValues == NV"
    pre = "g_calls < IN.n && vr == VR[g_calls] && !g_err"
    if wide(model, T): pre += " && *index == g_pos"
    elif not (ver == 2 and T == "Boolean"): pre += " && *index == g_calls"
    iface = "  __CPROVER_assert(%s, \"ens:internal-interface\");" % iface
    w = wide(model, T)
    if w: L[0] += " static size_t g_pos;"
    # StateSpace: a variable takes any number of values that is left; the value at the arbitrary position IN.q is followed
    adv = "size_t a = nondet_size(); __CPROVER_assume(a <= nValues - *index); %s *index = *index + a; g_pos = g_pos + a; g_calls = g_calls + 1; return OK; }" % ("if (*index <= IN.q && IN.q < *index + a) values[IN.q] = WANTK;" if d == "Get" else "")
    refuse = "  if (%s(g_calls == IN.k ? !OKK : nondet_refuse())) { g_err = 1; return Error; }" % "" if w else "  if (*index >= nValues || (g_calls == IN.k ? !OKK : nondet_refuse())) { g_err = 1; return Error; }"
    if d == "Get":
        L += ["Status get%s(ModelInstance *comp, ValueReference vr,%s %s values[], size_t nValues, size_t *index) {" % (T, " size_t sizes[]," if T == "Binary" else "", c),
              iface, "  __CPROVER_assert(%s, \"ens:each-variable-once-in-order\");" % pre, refuse,
              "  values[*index] = g_calls == IN.k ? WANTK : nondet_value();%s *index = *index + 1; g_calls = g_calls + 1; return OK; }" % (" sizes[*index] = g_calls == IN.k ? WANTSZ : nondet_size();" if T == "Binary" else "")]
        if w: L[-1] = adv
    else:
        L += ["Status set%s(ModelInstance *comp, ValueReference vr,%s %s values[], size_t nValues, size_t *index) {" % (T, " const size_t sizes[]," if T == "Binary" else "", c + "const" if c.endswith("*") else "const " + c),
              iface, "  __CPROVER_assert(%s, \"ens:each-variable-once-in-order\");" % pre, refuse,
              "  __CPROVER_assert(%s, \"ens:value-of-the-position\");" % ("values[*index] == (VV[g_calls] != 0)" if ver == 2 and T == "Boolean" else "values + *index == VV + g_calls" + (" && sizes + *index == SZ + g_calls" if T == "Binary" else "")),
              "  *index = *index + 1; g_calls = g_calls + 1; return OK; }"]
        if w: L[-2:] = ["  __CPROVER_assert(values == VV || nValues == 0, \"ens:value-of-the-position\"); " + adv]
    L += ["Status calculateValues(ModelInstance *comp) { __CPROVER_assert(comp == g_inst, \"ens:calculateValues-precondition\"); %scomp->isDirtyValues = false; return OK; }" % ("if (nondet_refuse()) { g_err = 1; return Error; } " if model == "Resource" else "")] if d == "Get" and model not in ("Stair", "Clocks") else []
    return "\n".join(L + ["#endif"])

DEEP = 18
def list_job(model, ver, d, T, deep=False):
    """deep: without the loop contract, lists of up to DEEP references (does not mention local variables)"""
    fn = api(ver, d, T); p = protos(ver)[fn]; me = selfname(ver); c = cty(ver, T); u = ubits(c)
    a_vr, a_n, a_v = ("valueReferences", "nValueReferences", "values") if ver == 3 else ("vr", "nvr", "value")
    own = not (ver == 2 and T == "Boolean"); w = wide(model, T)
    ptr = T in ("String", "Binary"); b = T == "Binary"
    inputs = "struct inst_in inst; size_t n, nv, k, q, wantsz; uint8_t nullvr, nullval, nullsz, okk; %s want;" % ("uint8_t" if T == "Boolean" else "uint64_t" if ptr else c)
    S = ["  __CPROVER_assume(valid_in(&IN.inst) && IN.n <= %s && IN.nv <= %s && IN.nullvr <= 1 && IN.nullval <= 1 && IN.nullsz <= %d && IN.okk <= 1);" % (MAXN, MAXN, b),
         "  __CPROVER_assume(IN.n <= %d && IN.nv <= %d);" % (DEEP, DEEP + 1) if deep else "",
         "  g_pos = 0;" if w else "",
         "  %s = (void *)mk_instance(&IN.inst); OLD = *g_inst; g_err = 0; g_calls = 0; OKK = IN.okk; WANTK = %sIN.want%s;%s" % (me, "(const char *)" if ptr else "", " & 1" if T == "Boolean" else "", " WANTSZ = IN.wantsz;" if b else "")]
    if ver == 2: S.append("  __CPROVER_assume(IN.nv == IN.n);")
    if deep: S.append("  static uint32_t AVR[%d]; static %s AVV[%d]; NV = IN.nv; VR = AVR; VV = AVV; for (int q = 0; q < %d; q++) AVR[q] = IN.avr[q];%s" % (DEEP, c, DEEP + 1, DEEP, " static size_t ASZ[%d]; SZ = ASZ;" % (DEEP + 1) if b else "")); inputs += " uint32_t avr[%d];" % DEEP
    else: S.append("  NV = IN.nv; VR = malloc(IN.n * sizeof(uint32_t)); VV = malloc(IN.nv * sizeof(%s)); __CPROVER_assume(VR != NULL && VV != NULL);%s" % (c, " SZ = malloc(IN.nv * sizeof(size_t)); __CPROVER_assume(SZ != NULL);" if b else ""))
    S += ["  %s = IN.n; %s %s = IN.nullvr ? NULL : VR; %s = IN.nullval ? NULL : %sVV;%s" % (a_n, "nValues = NV;" if ver == 3 else "", a_vr, a_v, "(void *)" if b else "", " valueSizes = IN.nullsz ? NULL : SZ;" if b else "")]
    inv = ["i <= IN.n && status == 0 && g_err == 0 && g_calls == i", "IN.k >= i || OKK"]
    if w: inv.append("index == g_pos && g_pos <= NV")
    elif own: inv.append("index == i && i <= NV")
    if w and d == "Get": inv.append("IN.q >= g_pos || ((unsigned long *)VV)[IN.q] == *(unsigned long *)&WANTK")
    elif d == "Get": inv.append("IN.k >= i || " + ("((%s *)VV)[IN.k] == *(%s *)&WANTK" % (u, u) if u else "VV[IN.k] == WANTK" + (" && SZ[IN.k] == WANTSZ" if b else "")))
    asg = "i, status, g_err, g_calls" + (", index" if own else "")
    if d == "Get": asg += ", __CPROVER_object_whole(VV)" + (", __CPROVER_object_whole(SZ)" if b else "")
    if w: asg += ", g_pos"
    loc = ["i", "status"] + (["index"] if own else [])
    ERRS = "RETV == %s && MI->state == Terminated" % ERR[ver]
    nul = "IN.nullvr || ((IN.nullval%s) && %s)" % (" || IN.nullsz" if b else "", "NV > 0" if ver == 3 else "1")
    CNT = "g_pos" if w else "IN.n"
    ens = [("accepted-or-refused", "RETV == %s ? MI->state == OLD.state : %s" % (OKS[ver], ERRS)),
           ("empty-request", "IMP(IN.n == 0, RETV == %s && g_calls == 0 && MI->isDirtyValues == OLD.isDirtyValues)" % OKS[ver]),
           ("refused-only-when-invalid", "IMP(RETV != %s, IN.n > 0 && (g_err || %s != NV || %s))" % (OKS[ver], CNT, nul)),
           ("null-refused", "IMP(IN.n > 0 && (%s), RETV != %s)" % (nul, OKS[ver])),
           ("count-refused", "IMP(IN.n > 0 && %s != NV, RETV != %s)" % (CNT, OKS[ver])),
           ("every-variable-accessed", "IMP(RETV == %s, g_calls == IN.n && !g_err)" % OKS[ver]),
           ("invalid-refused", "IMP(RETV == %s && IN.k < IN.n, OKK)" % OKS[ver])]
    if w and d == "Get": ens += [("values-in-order", "IMP(RETV == fmi3OK && IN.n > 0 && IN.q < NV, feq(VV[IN.q], WANTK))")]
    elif d == "Get": ens += [("values-in-order", "IMP(RETV == %s && IN.k < IN.n, %s)" % (OKS[ver], veq(T, "VV[IN.k]", "WANTK") + (" && SZ[IN.k] == WANTSZ" if b else "")))]
    elif own: ens += [("recalculation-due", "IMP(RETV == %s && IN.n > 0, MI->isDirtyValues)" % OKS[ver])]
    al = (ALLOWED3 if ver == 3 else ALLOWED2)[fn]
    allowed = [m for m in al if m != "ClockActivationMode" or model == "Clocks"]
    # nothing but the mode, the dirty flag and (readers) the caller's values may change
    asgn = ["g_inst->state", "g_inst->isDirtyValues", "g_log", "g_err", "g_calls"] + (["g_pos"] if w else []) + (["__CPROVER_object_whole(VV)"] + (["__CPROVER_object_whole(SZ)"] if b else []) if d == "Get" else [])
    j = Job("%s%d.%s.%s" % (model, ver, fn, "list%d" % DEEP if deep else "anylength"), fmu_unit(model, ver), Contract.of(p, requires=["%s != NULL && %s" % (me, mode_in(allowed, "MI->state"))], assigns=asgn, ensures=ens), inputs=inputs, decls=inst_decls(model, ver),
            spec_decls=elem_stub(model, ver, d, T), setup="\n".join(S), canaries=[("long", ("IN.n == %d" % DEEP if deep else "IN.n > 1000") + " && RET == %s" % OKS[ver]), ("refused", "RET != %s && !IN.nullvr && !IN.nullval" % OKS[ver])], unwind=DEEP + 1 if deep else 7 if model == "StateSpace" else 4, kind="bounded" if deep else "complete",
            mem=not deep, assigns_decide=not deep, replay=False, removed=("logError", "logEvent", inner(ver, d, T)), loop_contracts=None if deep else loop_contract(fn, asg, " && ".join("(%s)" % one(x) for x in inv), loc, "real"))
    if d == "Get" and model not in ("Stair", "Clocks"): j.removed += ("calculateValues",)
    j.key = (model, ver, d, T)
    if not deep: j.solver = "cadical"
    return j

def elem_job(model, ver, d, T, mem=False):
    """the real getter or setter of the model against its contract, for every reference, position, number of values and mode; the caller's
    array is represented by the single element at the position, so that any other access leaves it"""
    fn = inner(ver, d, T); c = CT[T]; fld = "uint8_t" if T == "Boolean" else c
    params = [("ModelInstance *", "comp", ""), ("ValueReference", "vr", ""), (c if d == "Get" else "const " + c, "values", "[]"), ("size_t", "nValues", ""), ("size_t *", "index", "")]
    inputs = "struct inst_in inst; ModelData calc; size_t nv, pos; uint32_t vr; %s val;" % fld
    spec = [spec_decls(model, ver, [T]), calc_abs_decl(model, ver), "static %s VV[1], V0; static size_t IDX; static ModelInstance TT; static _Bool FITS;" % c]
    S = ["  __CPROVER_assume(valid_in(&IN.inst) && valid_data(&IN.calc) && IN.nv <= %s && IN.pos <= IN.nv%s); CALC = IN.calc;" % (MAXN, " && IN.val <= 1" if T == "Boolean" else ""),
         "  comp = (void *)mk_instance(&IN.inst); OLD = *g_inst; TT = OLD; IDX = IN.pos; index = &IDX; nValues = IN.nv; vr = IN.vr; V0 = IN.val; VV[0] = V0; values = VV - IN.pos; FITS = IN.pos < IN.nv;"]
    if d == "Get":
        S += ["  want_calc(&TT);"]; good = "(FITS && spec_count_%s(&TT, IN.vr) == 1)" % T
    else:
        good = "(FITS && spec_wcount_%s(&OLD, IN.vr) == 1 && spec_mode_%s(&OLD, IN.vr) && spec_valok_%s(IN.vr, V0))" % (T, T, T)
        S += ["  if (%s) spec_put_%s(&TT, IN.vr, 0, V0);" % (good, T)]
    ens = [("accepted-exactly-when-valid", "RETV == (%s ? OK : Error)" % good), ("position", "IMP(RETV == OK, IDX == IN.pos + 1)"), ("rest-unchanged", "same_but_data(comp, &OLD) && comp->state == OLD.state")]
    if d == "Get": ens += [("value", "IMP(RETV == OK, %s)" % veq(T, "VV[0]", "spec_get_%s(&TT, IN.vr, 0)" % T)), ("settable-variables-unchanged", "same_base(comp, &OLD)"), ("values-untouched-on-error", "IMP(RETV != OK, %s)" % veq(T, "VV[0]", "V0"))]
    else: ens += [("exactly-that-variable-stored", "same_base(comp, &TT)")]
    if model == "Resource" and d == "Get": ens = [(n, {"value": "IMP(IN.vr != 1, %s)" % e, "accepted-exactly-when-valid": "IMP(RETV == OK, %s) && (RETV == OK || RETV == Error)" % good}.get(n, e)) for n, e in ens]
    if mem: ens = [("data-valid", "valid_data(&comp->modelData)")] + ([("values-untouched", veq(T, "VV[0]", "V0"))] if d == "Set" else [])
    known = (gets if d == "Get" else sets)(model, ver).get(T)
    can = ([("accepted", "RET == OK")] if known else []) + [("refused", "RET != OK")]
    # a set that fails late may have been made dirty; nothing else of the instance may change
    asgn = ["__CPROVER_object_whole(g_inst)", "g_log", "IDX"] + (["__CPROVER_object_whole(VV)"] if d == "Get" else [])
    j = Job("%s%d.%s.element%s" % (model, ver, fn, "-memory" if mem else ""), fmu_unit(model, ver), Contract("Status", fn, params, requires=["comp == g_inst && comp->state != 0"], assigns=asgn, ensures=ens), inputs=inputs, decls=inst_decls(model, ver),
            spec_decls="\n".join(spec), setup="\n".join(S), canaries=can, unwind=7 if model == "StateSpace" else 4, mem=mem, assigns_decide=mem, replay=False)
    if d == "Get":
        cs = calc_mem_stub(model, ver) if mem else calc_stub(model, ver)
        if cs: j.spec_decls += "\n" + cs; j.removed += ("calculateValues",)
    return j

def array_job(vr, d, mem=False):
    """the real array access of StateSpace against its contract: every position, number of values, mode and dimension choice"""
    import c04ss
    model, ver = "StateSpace", 3
    rows, cols, elem, mode = c04ss.ARR[vr]; get = d == "Get"; fn = d.lower() + "Float64"; VB = c04ss.VB
    params = [("ModelInstance *", "comp", ""), ("ValueReference", "vr", ""), ("double" if get else "const double", "values", "[]"), ("size_t", "nValues", ""), ("size_t *", "index", "")]
    spec = [spec_decls(model, ver, []), calc_abs_decl(model, ver), calc_stub(model, ver), "static double VV[%d], V0[%d]; static size_t ROWS, COLS, IDX; static double WANT; static int GOOD;" % (VB, VB),
            "static inline double elem(const ModelInstance *s, size_t i, size_t j) { (void)j; return %s; }" % elem]
    inputs = "struct inst_in inst; ModelData calc; size_t nv, pos; uint8_t i, j, k; double val[%d];" % VB
    S = ["  __CPROVER_assume(valid_in(&IN.inst) && valid_data(&IN.calc) && IN.nv <= %s && IN.pos <= IN.nv && IN.i < 5 && IN.j < %d && IN.k < %d);" % (MAXN, 5 if cols != "1" else 1, VB),
         "  CALC = IN.calc; comp = (void *)mk_instance(&IN.inst); OLD = *g_inst; static ModelInstance TT; TT = OLD; ModelInstance *s = &TT; %s" % ("want_calc(s);" if get else ""),
         "  ROWS = %s; COLS = %s; vr = %d; nValues = IN.nv; IDX = IN.pos; index = &IDX;" % (rows, cols, vr), "  for (size_t k = 0; k < %d; k++) { VV[k] = IN.val[k]; V0[k] = IN.val[k]; }" % VB,
         "  values = VV - IN.pos; GOOD = IN.nv - IN.pos >= ROWS * COLS && (%s); WANT = elem(s, IN.i, IN.j);" % ("1" if get else mode or "0")]
    slow = get and cols != "1"     # matrices are read at one position only
    if slow: S = [x.replace("IN.pos <= IN.nv", "IN.nv >= 3").replace("IN.pos", "3") for x in S]
    ins = "IN.i < ROWS && IN.j < COLS"
    other = [same_fields([f], "g_inst->modelData.", "OLD.modelData.") for f in data_fields(model, ver) if f[1] not in ("y", "der_x") and (get or f[1] != c04ss.NAMES[vr])]
    ens = [("accepted-exactly-when-valid", "RETV == (GOOD ? OK : Error)"), ("position", "IMP(RETV == OK, IDX == IN.pos + ROWS * COLS)"), ("other-variables-unchanged", " && ".join(other)), ("rest-unchanged", "same_but_data(comp, &OLD) && comp->state == OLD.state")]
    if get: ens += [("element", "IMP(RETV == OK && %s, feq(VV[IN.i * COLS + IN.j], WANT))" % ins), ("behind-untouched", "IMP(RETV != OK || IN.k >= ROWS * COLS, feq(VV[IN.k], V0[IN.k]))")]
    else: ens += [("element-stored", "feq(elem(comp, IN.i, IN.j), RETV == OK && %s ? V0[IN.i * COLS + IN.j] : elem(&OLD, IN.i, IN.j))" % ins)]
    if slow: ens = [(n, e.replace("IN.pos", "3")) for n, e in ens]
    j = Job("StateSpace3.%s.%s.element" % (fn, c04ss.NAMES[vr]), fmu_unit(model, ver), Contract("Status", fn, params, requires=["comp == g_inst && comp->state != 0"], assigns=["__CPROVER_object_whole(g_inst)", "g_log", "IDX"] + (["__CPROVER_object_whole(VV)"] if get else []), ensures=ens), inputs=inputs, decls=inst_decls(model, ver),
               spec_decls="\n".join(spec), setup="\n".join(S), canaries=([("full", "RET == OK && ROWS == 5")] if get or mode else []) + [("refused", "RET != OK")], unwind=7, unwindset=["harness.0:28"], max_unwind=28, replay=False, removed=("logError", "logEvent", "calculateValues") if get else ("logError", "logEvent"))
    if slow: j.kind, j.bound = "bounded", "position 3 of the caller's array"
    return j
def arrays(what, ds):
    import c04ss
    out = []
    for d in ds:
        fb = {"read": "read", "write": "write", "refused": "refused"}.get(what)
        out += [with_fallback(list_job("StateSpace", 3, d, "Float64"), lambda d=d: c04ss.job(11 if what == "refused" else 8, d, what))]
        if fb:
            for vr, (r_, c_, e_, mode) in c04ss.ARR.items():
                if what == "read" or what == "write" and mode or what == "refused" and mode not in (None, ANY): out.append(with_fallback(array_job(vr, d), lambda vr=vr, d=d: c04ss.job(vr, d, what)))
    return out

def text_job(ver, d, T, mem=False):
    """the real string and binary getters and setters of Feedthrough against their contract: every reference, position, number of values,
    mode and content up to beyond the limits"""
    import c04str
    b = T == "Binary"; vi = 31 if b else 29; lim = 128 if b else 127; L = c04str.LMAX; fn = inner(ver, d, T); f = "Binary_input" if b else "String_input"
    ct = "const char *"
    params = [("ModelInstance *", "comp", ""), ("ValueReference", "vr", "")] + ([("size_t" if d == "Get" else "const size_t", "sizes" if d == "Get" else "size", "[]")] if b else []) + [(ct + ("" if d == "Get" else "const"), "values", "[]"), ("size_t", "nValues", ""), ("size_t *", "index", "")]
    inputs = "struct inst_in inst; size_t nv, pos; uint32_t vr; uint8_t len, k; char s[%d];" % (L + 2)
    spec = [spec_decls("Feedthrough", ver, []), "static %sVV[1]; static size_t SZ[1], IDX; static char SB[%d]; static _Bool FITS;" % (ct, L + 2)]
    S = ["  __CPROVER_assume(valid_in(&IN.inst) && IN.nv <= %s && IN.pos <= IN.nv && IN.len <= %d);" % (MAXN, L),
         "  for (int q = 0; q < %d; q++) { if (q < IN.len) __CPROVER_assume(%s); SB[q] = q < IN.len ? IN.s[q] : 0; }" % (L + 2, "1" if b else "IN.s[q] != 0"),
         "  comp = (void *)mk_instance(&IN.inst); OLD = *g_inst; IDX = IN.pos; index = &IDX; nValues = IN.nv; vr = IN.vr; VV[0] = SB; values = VV - IN.pos; FITS = IN.pos < IN.nv;"]
    if b: S.append("  SZ[0] = IN.len; %s = SZ - IN.pos;" % params[2][1])
    good = "(FITS && (IN.vr == %d%s))" % (vi, " || IN.vr == %d" % (vi + 1) if d == "Get" else "") if d == "Get" else "(FITS && IN.vr == %d && IN.len <= %d)" % (vi, lim)
    ens = [("accepted-exactly-when-valid", "RETV == (%s ? OK : Error)" % good), ("position", "IMP(RETV == OK, IDX == IN.pos + 1)")]
    if d == "Get":
        inlen = "IN.k < OLD.modelData.Binary_input_size" if b else "IN.k <= IN.len"
        if not b: S.append("  __CPROVER_assume(IN.len < 128 && OLD.modelData.String_input[IN.len] == 0); for (int q = 0; q < 127; q++) __CPROVER_assume(q >= IN.len || OLD.modelData.String_input[q] != 0);")
        ens += [("content", "IMP(RETV == OK && IN.k < 128 && %s, VV[0][IN.k] == OLD.modelData.%s[IN.k])" % (inlen, f)), ("untouched-on-error", "IMP(RETV != OK, VV[0] == SB)")] + ([("size", "IMP(RETV == OK, SZ[0] == OLD.modelData.Binary_input_size)")] if b else [])
        fr = c04str.fr("Feedthrough", ver)
    else:
        ens += [("content-stored", "IMP(RETV == OK && IN.k < IN.len, comp->modelData.%s[IN.k] == SB[IN.k])" % f)]
        ens += [("size-stored", "IMP(RETV == OK, comp->modelData.Binary_input_size == IN.len)")] if b else [("terminated", "IMP(RETV == OK, comp->modelData.String_input[IN.len] == 0)")]
        fr = c04str.fr("Feedthrough", ver, ("Binary_input", "Binary_input_size") if b else ("String_input",))
        ens += [("refused-unchanged", "IMP(RETV != OK && IN.k < 128, comp->modelData.%s[IN.k] == OLD.modelData.%s[IN.k])%s" % (f, f, " && IMP(RETV != OK, comp->modelData.Binary_input_size == OLD.modelData.Binary_input_size)" if b else ""))]
    ens += [(n, e.replace("MI", "comp")) for n, e in fr] + [("mode", "comp->state == OLD.state")]
    if mem: ens = [("data-valid", "valid_data(&comp->modelData)")]
    asgn = ["__CPROVER_object_whole(g_inst)", "g_log", "IDX"] + (["__CPROVER_object_whole(VV)"] + (["__CPROVER_object_whole(SZ)"] if b else []) if d == "Get" else [])
    us = ["harness.0:%d" % (L + 4), "harness.1:%d" % (L + 4), "strlen.0:%d" % (L + 4), "strcpy.0:%d" % (L + 4), "strncpy.0:%d" % (L + 4)]
    j = Job("Feedthrough%d.%s.element%s" % (ver, fn, "-memory" if mem else ""), fmu_unit("Feedthrough", ver), Contract("Status", fn, params, requires=["comp == g_inst && comp->state != 0"], assigns=asgn, ensures=ens), inputs=inputs, decls=inst_decls("Feedthrough", ver),
            spec_decls="\n".join(spec), setup="\n".join(S), canaries=[("accepted", "RET == OK"), ("refused", "RET != OK")], unwind=6, unwindset=us, max_unwind=L + 6, mem=mem, assigns_decide=mem, replay=False)
    if d == "Set": j.kind = "complete"
    return j
def text_fb(v, d, T, what):
    import c04str
    return lambda: {"read": lambda: c04str.read(v, T), "write": lambda: c04str.write(v, T), "invalid": lambda: c04str.invalid("Feedthrough", v, d, T)[0], "refused": lambda: c04str.refused(v, T), "memory": lambda: c04str.memory(v, d, T)[0]}[what]()
def texts(what, ds):
    import c04str
    out = []
    for v, T in c04str.VT:
        for d in ds: out += [with_fallback(text_job(v, d, T, what == "memory"), text_fb(v, d, T, what)), with_fallback(list_job("Feedthrough", v, d, T), text_fb(v, d, T, what))]
    return out

def numeric(m, T): return T not in ("String", "Binary") and not wide(m, T)
def with_fallback(j, fb):
    """where rewritten code no longer fits the loop contract or the internal contract, the bounded job on the FMI function decides"""
    if j.name.endswith(".anylength") and not wide(j.key[0], j.key[3]):
        def deep():
            d = list_job(*j.key, deep=True)
            # a failure is final unless the per-variable functions are used in another way than the contract assumes
            d.fallback, d.fallback_on_fail = fb, lambda fails: any(f["name"] == "internal-interface" or f["class"] == "assigns" for f in fails)
            return d
        j.fallback, j.fallback_on_fail = deep, True
    else: j.fallback, j.fallback_on_fail = fb, True
    return j
def bounded(m, v, d, T, invalid):
    if invalid or T not in typed(m, v, d): return lambda: c04.invalid_job(m, v, d, T)
    return (lambda: c04.read_job(m, v, T)) if d == "Get" else (lambda: c04.write_job(m, v, T))
def mem_bounded(m, v, d, T): return lambda: c04.memory_job(m, v, d, T, *((2, 1, False) if v == 3 else (2, 2, True)))
def combos(d): return [(m, v, T) for ver in (3, 2) for m, v in units(ver) for T in typed(m, v, d) if numeric(m, T)]
def first(d):
    """one model per function: the list functions are the same source text for every model"""
    out = {}
    for m, v, T in combos(d):
        if (v, T) not in out or m == "Feedthrough": out[(v, T)] = (m, v, T)
    return list(out.values())
def access(d): return [with_fallback(f(m, v, d, T), bounded(m, v, d, T, False)) for m, v, T in combos(d) for f in (elem_job, list_job)] + texts("read" if d == "Get" else "write", [d]) + arrays("read" if d == "Get" else "write", [d])
def refusals():
    out = texts("invalid", ("Get", "Set")) + arrays("invalid", ("Get", "Set"))
    for d in ("Get", "Set"):
        C = combos(d) + [("BouncingBall", v, T) for v in (3, 2) for T in c04.alltypes(v) if T not in typed("BouncingBall", v, d)]
        out += [with_fallback(elem_job(m, v, d, T), bounded(m, v, d, T, True)) for m, v, T in C]
        out += [with_fallback(list_job(m, v, d, T), bounded(m, v, d, T, True)) for m, v, T in (combos(d) if TIER == "thorough" else first(d))]
    return out
def protection():
    C = [(m, v, T) for m, v, T in combos("Set") if any(c04.protected(e) for e in sets(m, v)[T])]
    return [with_fallback(f(m, v, "Set", T), (lambda m=m, v=v, T=T: c04.protect_job(m, v, T))) for m, v, T in C for f in (elem_job, list_job)] + texts("refused", ["Set"]) + arrays("refused", ["Set"])
def memory():
    out = texts("memory", ("Get", "Set")) + arrays("memory", ("Get", "Set"))
    for d in ("Get", "Set"):
        out += [with_fallback(elem_job(m, v, d, T, True), mem_bounded(m, v, d, T)) for m, v, T in combos(d)]
        out += [with_fallback(list_job(m, v, d, T), mem_bounded(m, v, d, T)) for m, v, T in (combos(d) if TIER == "thorough" else first(d))]
    return out
