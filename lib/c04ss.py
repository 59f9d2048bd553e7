"""C04-C08 for the array variables of StateSpace: one job per array variable, dimensions and one element (row, column) symbolic."""
from models import *

# vr: (rows, columns, element (i, j), settable mode)
ARR = {4: ("D(n)", "D(n)", "D(A)[i][j]", ANY), 5: ("D(n)", "D(m)", "D(B)[i][j]", ANY), 6: ("D(r)", "D(n)", "D(C)[i][j]", ANY), 7: ("D(r)", "D(m)", "D(D)[i][j]", ANY),
       8: ("D(n)", "1", "D(x0)[i]", ANY), 9: ("D(m)", "1", "D(u)[i]", ANY), 10: ("D(r)", "1", "D(y)[i]", None), 11: ("D(n)", "1", "D(x)[i]", CTEV), 12: ("D(n)", "1", "D(der_x)[i]", None)}
VB = 26
NAMES = {4: "A", 5: "B", 6: "C", 7: "D", 8: "x0", 9: "u", 10: "y", 11: "x", 12: "der_x"}

def job(vr, d, what):
    ver, model = 3, "StateSpace"
    rows, cols, elem, mode = ARR[vr]
    fn = "fmi3%sFloat64" % d
    get = d == "Get"
    spec = [spec_decls(model, ver, []), calc_abs_decl(model, ver), calc_mem_stub(model, ver) if what == "memory" else calc_stub(model, ver),
        "static uint32_t VR[1]; static double VV[%d], V0[%d]; static size_t ROWS, COLS; static double WANT; static int MODE_OK;" % (VB, VB),
        "static inline double elem(const ModelInstance *s, size_t i, size_t j) { (void)j; return %s; }" % elem]
    # values array is passed with an offset so that it ends exactly at the end of the object
    inputs = "struct inst_in inst; ModelData calc; uint8_t nv, nullvr, nullval, i, j, k; double val[%d]; double one; uint8_t big;" % VB
    S = ["  __CPROVER_assume(valid_in(&IN.inst) && valid_data(&IN.calc) && IN.nv <= %d && IN.nullvr <= 1 && IN.nullval <= 1 && IN.i < 5 && IN.j < %d);" % (VB, 5 if cols != "1" else 1),
         "  CALC = IN.calc; instance = (void *)mk_instance(&IN.inst); OLD = *g_inst; static ModelInstance TT; TT = OLD; ModelInstance *s = &TT; want_calc(s);" if get else
         "  CALC = IN.calc; instance = (void *)mk_instance(&IN.inst); OLD = *g_inst; ModelInstance *s = &OLD;",
         "  ROWS = %s; COLS = %s; VR[0] = %d; nValueReferences = 1; nValues = %s;" % (rows, cols, vr, 6 if what == "memory" and get and cols != "1" and TIER != "thorough" else "IN.nv"),
         "  for (size_t k = 0; k < %d; k++) { VV[k] = IN.val[k]; V0[k] = IN.val[k]; }" % VB,
         "  valueReferences = VR; values = VV;" if what in ("read", "write", "refused") else "  valueReferences = VR; values = IN.nullval ? NULL : VV;" if what == "invalid" else "  valueReferences = VR; values = VV + (%d - nValues);" % VB,
         "  MODE_OK = %s; WANT = elem(s, IN.i, IN.j);" % (mode or "1")]
    ok = "valueReferences != NULL && values != NULL && nValues == ROWS * COLS"
    ins = "IN.i < ROWS && IN.j < COLS"
    src = "V0[IN.i * COLS + IN.j]"
    mem, adec = False, False
    other = [same_fields([f], "g_inst->modelData.", "OLD.modelData.") for f in data_fields(model, ver) if f[1] not in ("y", "der_x") and (get or f[1] != NAMES[vr])]
    frame = [("other-variables-unchanged", " && ".join(other)), ("rest-unchanged", "same_but_data(MI, &OLD)")]
    if what == "read":
        req = [ok]; can = [("full", "ROWS == 5"), ("empty", "ROWS == 0")]
        ens = [("succeeds", "RETV == fmi3OK"), ("element", "IMP(%s, feq(values[IN.i * COLS + IN.j], WANT))" % ins), ("mode", "MI->state == OLD.state")] + frame
    elif what == "write":
        req = [ok + " && MODE_OK"]; can = [("full", "ROWS == 5"), ("empty", "ROWS == 0")]
        ens = [("succeeds", "RETV == fmi3OK"), ("element-stored", "IMP(%s, feq(elem(MI, IN.i, IN.j), %s))" % (ins, src)),
               ("outside-unchanged", "IMP(!(%s), feq(elem(MI, IN.i, IN.j), elem(&OLD, IN.i, IN.j)))" % ins), ("mode", "MI->state == OLD.state")] + frame
    elif what == "refused":
        req = ["valueReferences != NULL && values != NULL && nValues == ROWS * COLS && !MODE_OK"]; can = [("mode", "1")]
        ens = [("refused", "RETV == fmi3Error && MI->state == Terminated"), ("element-unchanged", "feq(elem(MI, IN.i, IN.j), elem(&OLD, IN.i, IN.j))")] + frame
    elif what == "invalid":
        req = ["valueReferences == NULL || (values == NULL && nValues > 0) || (nValues != ROWS * COLS%s)" % ("" if get or mode else " || 1")]
        ens = [("refused", "RETV == fmi3Error && MI->state == Terminated")]
        can = [("short", "nValues < ROWS * COLS"), ("long", "nValues > ROWS * COLS"), ("noval", "IN.nullval && nValues > 0")]
    else:
        mem, adec = True, True
        req = []; can = [("any", "1")]
        ens = [("before-array-untouched", "IMP(IN.k < %d - nValues, feq(VV[IN.k], V0[IN.k]))" % VB) if get else ("values-untouched", "IMP(IN.k < %d, feq(VV[IN.k], V0[IN.k]))" % VB),
               ("dimensions-unchanged", "MI->modelData.m == OLD.modelData.m && MI->modelData.n == OLD.modelData.n && MI->modelData.r == OLD.modelData.r")]
    al = [m for m in ALLOWED3[fn] if m != "ClockActivationMode"]
    req = ["instance != NULL && %s" % mode_in(al, "MI->state")] + req
    j = Job("StateSpace3.%s.%s%s" % (fn, NAMES[vr], "" if what in ("read", "write") else "." + what), fmu_unit(model, ver), Contract.of(protos(3)[fn], requires=req, assigns=["__CPROVER_object_whole(g_inst)", "g_log"] + (["__CPROVER_object_whole(VV)"] if get else []), ensures=ens),
            inputs=inputs, decls=inst_decls(model, ver), spec_decls="\n".join(spec), setup="\n".join(S), canaries=can, unwind=7, unwindset=["harness.0:28"], max_unwind=28, mem=mem, assigns_decide=adec, removed=("logError", "logEvent", "calculateValues") if get else ("logError", "logEvent"))
    j.weight = 9
    if what == "memory" and get and cols != "1" and TIER != "thorough": j.kind = "bounded"; j.bound = "6 values requested"
    return j

def jobs(what):
    out = []
    for vr, (r, c, e, mode) in ARR.items():
        if what in ("read", "invalid", "memory"): out.append(job(vr, "Get", what))
        if what in ("write", "invalid", "memory") and (mode or what == "invalid"): out.append(job(vr, "Set", what))
        if what == "refused" and mode not in (None, ANY): out.append(job(vr, "Set", what))
    return out
