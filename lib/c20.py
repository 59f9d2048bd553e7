"""C20: directional, adjoint and output derivatives."""
import copy
from models import *
from c17 import SMALL
import lists

# Jacobian entries: (unknown, known) -> value
PD = {"VanDerPol": [(2, 1, "0.0"), (2, 3, "1.0"), (4, 1, "-2 * D(x0) * D(x1) * D(mu) - 1"), (4, 3, "D(mu) * (1 - D(x0) * D(x0))"), (4, 5, "s->state == InitializationMode ? (1 - D(x0) * D(x0)) * D(x1) : 0.0")],
      "Roberts": [(3, 2, "-0.04"), (3, 4, "1e4 * D(y3)"), (3, 6, "1e4 * D(y2)"), (5, 2, "0.04"), (5, 4, "-1e4 * D(y3) - 6e7 * D(y2)"), (5, 6, "-1e4 * D(y2)"), (8, 2, "1.0"), (8, 4, "1.0"), (8, 6, "1.0")]}

def pd_decl(model):
    return "static inline double spec_pd0(const ModelInstance *s, uint32_t u, uint32_t k) { (void)s; %s return 0.0; }" % " ".join("if (u == %d && k == %d) return %s;" % e for e in PD[model])
def pd_stub():
    return """#ifdef REPLAY
#define spec_pd(u, k) spec_pd0(&OLD, u, k)
#else
double __CPROVER_uninterpreted_pd(uint32_t, uint32_t);
#define spec_pd(u, k) __CPROVER_uninterpreted_pd(u, k)
Status getPartialDerivative(ModelInstance *comp, ValueReference unknown, ValueReference known, double *partialDerivative) {
  __CPROVER_assert(comp == g_inst && partialDerivative != NULL, "ens:partial-derivative-call"); *partialDerivative = spec_pd(unknown, known); return OK; }
#endif"""

def fallback(j, conds):
    fb = copy.copy(j); fb.solver = None; fb.kind = "bounded"; fb.bound = "small set of numbers"; fb.name += ".small"; fb.setup = "  __CPROVER_assume(%s);\n" % " && ".join(conds) + j.setup
    j.fallback = fb
    return j

def pd_job(model, ver, entry):
    """one Jacobian entry; entry None: every other pair of value references gives zero"""
    S = "  __CPROVER_assume(valid_in(&IN.inst)); comp = mk_instance(&IN.inst); OLD = *g_inst; TT = OLD; ModelInstance *s = &TT; %s (void)s; PDV = IN.pd; unknown = (ValueReference)%s; known = (ValueReference)%s; partialDerivative = &PDV;" % ("spec_calc(s);" if model == "Roberts" else "", entry[0] if entry else "IN.u", entry[1] if entry else "IN.k")
    if not entry: S += "  __CPROVER_assume(%s);" % " && ".join("!(IN.u == %d && IN.k == %d)" % e[:2] for e in PD[model])
    S += "  WANT = %s;" % (entry[2] if entry else "0.0")
    md = [f[1] for f in data_fields(model, ver) if f[0] == "double"]
    ens = [("succeeds", "RETV == OK"), ("entry", "DEQ(PDV, WANT)"), ("unchanged", "same_but_data(comp, &OLD) && comp->state == OLD.state && %s" % base_expr(model, ver, "comp->modelData.", "OLD.modelData."))]
    j = Job("%s%d.getPartialDerivative.%s" % (model, ver, "%d-%d" % entry[:2] if entry else "zero"), fmu_unit(model, ver), Contract("Status", "getPartialDerivative", [("ModelInstance *", "comp", ""), ("ValueReference", "unknown", ""), ("ValueReference", "known", ""), ("double *", "partialDerivative", "")],
            requires=["comp == g_inst"], assigns=["PDV", "g_log", "__CPROVER_object_whole(g_inst)"], ensures=ens), inputs="struct inst_in inst; uint32_t u, k; double pd;", decls=inst_decls(model, ver),
            spec_decls="\n".join([spec_decls(model, ver, []), SMALL, "static double PDV, WANT; static ModelInstance TT;", pd_decl(model)]), setup=S, canaries=[("reached", "1")], solver="z3", timeout=100)
    return fallback(j, ["small(IN.inst.md.%s)" % f for f in md])

def dir_job(model, ver, kind, nu, nk):
    fn = {("dir", 3): "fmi3GetDirectionalDerivative", ("adj", 3): "fmi3GetAdjointDerivative", ("dir", 2): "fmi2GetDirectionalDerivative"}[kind, ver]
    p = protos(ver)[fn]; me = selfname(ver); P = [x[1] for x in p.params]
    sup = model in PD
    nseed, nout = (nk, nu) if kind == "dir" else (nu, nk)
    z = lambda n: max(n, 1)
    spec = [spec_decls(model, ver, []), SMALL, "static uint32_t U[%d], K[%d]; static double SD[%d], SN[%d];" % (z(nu), z(nk), z(nseed), z(nout))]
    S = ["  __CPROVER_assume(valid_in(&IN.inst)); %s = (void *)mk_instance(&IN.inst); OLD = *g_inst;" % me]
    S += ["  U[%d] = IN.u[%d];" % (i, i) for i in range(nu)] + ["  K[%d] = IN.k[%d];" % (i, i) for i in range(nk)] + ["  SD[%d] = IN.seed[%d];" % (i, i) for i in range(nseed)] + ["  SN[%d] = IN.sens[%d];" % (i, i) for i in range(nout)]
    if ver == 3: vals = ["U", str(nu), "K", str(nk), "SD", str(nseed), "SN", str(nout)]
    else: vals = ["U", str(nu), "K", str(nk), "SD", "SN"]
    S += ["  %s = %s;" % (n, v) for n, v in zip(P[1:], vals)]
    al = (ALLOWED3 if ver == 3 else ALLOWED2)[fn]
    req = ["%s != NULL && %s" % (me, mode_in(al, "MI->state"))]
    frame = [("unchanged", "same_all(MI, &OLD)")]
    rem = ("logError", "logEvent")
    if sup:
        spec += [pd_decl(model), pd_stub()]; rem += ("getPartialDerivative",)
        def term(o):
            e = "0.0"
            for q in range(nseed):
                u, k = (o, q) if kind == "dir" else (q, o)
                e = "(%s + spec_pd(U[%d], K[%d]) * SD[%d])" % (e, u, k, q)
            return e
        ens = [("succeeds", "RETV == %s" % OKS[ver])] + [("sensitivity%d" % o, "DEQ(SN[%d], %s)" % (o, term(o))) for o in range(nout)] + [("seed-unchanged", " && ".join(["DEQ(SD[%d], IN.seed[%d])" % (i, i) for i in range(nseed)] or ["1"])), ("mode", "MI->state == OLD.state")] + frame
    else: ens = [("refused", "RETV == %s && MI->state == Terminated" % ERR[ver])] + frame
    j = Job("%s%d.%s.%dx%d" % (model, ver, fn, nu, nk), fmu_unit(model, ver), Contract.of(p, requires=req, assigns=["__CPROVER_object_whole(g_inst)", "__CPROVER_object_whole(SN)", "g_log"], ensures=ens), inputs="struct inst_in inst; uint32_t u[3], k[3]; double seed[3], sens[3];",
            decls=inst_decls(model, ver), spec_decls="\n".join(spec), setup="\n".join(S), canaries=[("reached", "1")], unwind=5, kind="bounded", solver="z3" if sup else None, removed=rem)
    j.bound = "%d unknowns, %d knowns" % (nu, nk)
    if sup: fallback(j, ["small(IN.seed[%d])" % i for i in range(3)] + ["small(IN.inst.md.%s)" % f[1] for f in data_fields(model, ver) if f[0] == "double"])
    return j

def out_job(model, ver):
    fn = "fmi3GetOutputDerivatives" if ver == 3 else "fmi2GetRealOutputDerivatives"
    p = protos(ver)[fn]; me = selfname(ver); P = [x[1] for x in p.params]
    S = ["  __CPROVER_assume(valid_in(&IN.inst)); %s = (void *)mk_instance(&IN.inst); OLD = *g_inst;" % me] + ["  V[%d] = IN.vr[%d]; O[%d] = IN.o[%d]; W[%d] = IN.w[%d];" % ((i,) * 6) for i in (0, 1)]
    S += ["  %s = %s;" % (n, v) for n, v in zip(P[1:], ["V", "2", "O", "W", "2"])]
    al = (ALLOWED3 if ver == 3 else ALLOWED2)[fn]
    req = ["%s != NULL && %s" % (me, mode_in(al, "MI->state"))]
    E = [("unchanged", "same_all(MI, &OLD)")]
    can = [("reached", "1")]
    spec = [spec_decls(model, ver, []), "static uint32_t V[2]; static int32_t O[2]; static double W[2];"]
    if model in OUTDER:
        spec.append("#define GOOD(i) (IN.o[i] == 1 && (IN.vr[i] == 1 || IN.vr[i] == 3))")
        E += [("values", "IMP(GOOD(0) && GOOD(1), RETV == %s && MI->state == OLD.state && %s)" % (OKS[ver], " && ".join("DEQ(W[%d], IN.vr[%d] == 1 ? OLD.modelData.v : OLD.modelData.g)" % (i, i) for i in (0, 1)))),
              ("refused", "IMP(!(GOOD(0) && GOOD(1)), RETV == %s && MI->state == Terminated)" % ERR[ver])]
        can = [("good", "GOOD(0) && GOOD(1)"), ("bad", "!GOOD(0)"), ("bad2", "GOOD(0) && !GOOD(1)")]
    else: E += [("refused", "RETV == %s" % ERR[ver])]
    j = Job("%s%d.%s" % (model, ver, fn), fmu_unit(model, ver), Contract.of(p, requires=req, assigns=["__CPROVER_object_whole(g_inst)", "__CPROVER_object_whole(W)", "g_log"], ensures=E), inputs="struct inst_in inst; uint32_t vr[2]; int32_t o[2]; double w[2];",
            decls=inst_decls(model, ver), spec_decls="\n".join(spec), setup="\n".join(S), canaries=can, unwind=5, kind="bounded" if model in OUTDER else "complete")
    j.bound = "2 value references"
    return j

def jobs():
    out = []
    shapes = [(3, 2), (2, 3), (2, 2), (1, 2), (2, 1), (1, 0), (0, 1)] if TIER != "thorough" else [(a, b) for a in range(4) for b in range(4)]
    for m, v in [("Roberts", 3), ("VanDerPol", 3), ("VanDerPol", 2)]:
        out += [pd_job(m, v, e) for e in PD[m] + [None]]
        for s in shapes:
            for k in ("dir", "adj") if v == 3 else ("dir",): out.append(dir_job(m, v, k, *s))
        out += [lists.deep(lambda m=m, v=v, k=k: lists.product_job(m, v, k), 0, lambda m=m, v=v, k=k: dir_job(m, v, k, 2, 2)) for k in (("dir", "adj") if v == 3 else ("dir",))]
    for ver in (3, 2):
        for m, v in units(ver):
            if m not in PD: out += [dir_job(m, v, k, 1, 1) for k in (("dir", "adj") if v == 3 else ("dir",))]
            if m != "Clocks": out.append(out_job(m, v))
    return out

ASSUME = ["logError/logEvent bodies replaced by stubs that only count (their real bodies are verified by C23)",
          "in the derivative loops getPartialDerivative is replaced by an uninterpreted function of unknown and known (any Jacobian); its real body is discharged against the analytic Jacobian by separate jobs of this check",
          "the caller's arrays are valid for the passed counts and do not overlap"]
