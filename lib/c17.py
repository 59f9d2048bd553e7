"""C17 continuous-state interface, C18 derivatives/event indicators and the contract of calculateValues."""
from models import *

FN = {3: dict(set="fmi3SetContinuousStates", get="fmi3GetContinuousStates", nom="fmi3GetNominalsOfContinuousStates", der="fmi3GetContinuousStateDerivatives", ind="fmi3GetEventIndicators"),
      2: dict(set="fmi2SetContinuousStates", get="fmi2GetContinuousStates", nom="fmi2GetNominalsOfContinuousStates", der="fmi2GetDerivatives", ind="fmi2GetEventIndicators")}
FRAME = "same_but_data(MI, &OLD)"

def small(model, ver):
    """fallback when the solver does not decide the floating-point obligation: values from a small set of exactly representable numbers"""
    return ["  __CPROVER_assume(%s);" % c for c in small_conds(model, ver)]
def small_conds(model, ver, pre="IN.inst.md."):
    out = []
    for t, f, d in data_fields(model, ver):
        if t == "double": out += ["small(%s%s%s)" % (pre, f, i) for i in idx(d)]
    return out
SMALL = "static inline _Bool small(double v) { return v == 0.0 || v == 1.0 || v == -2.0 || v == 0.5 || v == 3.0; }"

def count(model, what):
    if what == "ind": return str(NZ.get(model, 0))
    return "OLD.modelData.n" if model == "StateSpace" else str(NX.get(model, 0))
def cap(model, what): return max(NZ.get(model, 0) if what == "ind" else NX.get(model, 0), 1)

def states(model): return ["x[%d]" % i for i in range(5)] if model == "StateSpace" else SPEC[model]["states"]

INNER = dict(set="setContinuousStates", get="getContinuousStates", nom="getNominalsOfContinuousStates", der="getDerivatives", ind="getEventIndicators")
def inner(j, what):
    """the same contract on the model's own function, in every mode (used where the FMI layer is not involved)"""
    c = j.contract; sub = lambda t: t.replace("MI->", "g_inst->").replace("(MI,", "(g_inst,")
    me = c.params[0][1]; a, n = c.params[1][1], c.params[2][1]
    c.name = INNER[what]; c.ret = "Status"
    c.params = [("ModelInstance *", "comp", ""), ("const double *" if what == "set" else "double *", a, ""), ("size_t", n, "")]
    c.requires = ["comp == g_inst"] + [sub(r) for r in c.requires[1:]]
    c.ensures = [(k, sub(e).replace("fmi3OK", "OK").replace("fmi2OK", "OK")) for k, e in c.ensures]
    j.setup = j.setup.replace("%s = (void *)mk_instance" % me, "comp = mk_instance")
    j.name = j.name.split(".")[0] + "." + INNER[what]
    if j.fallback: j.fallback.contract = c; j.fallback.setup = j.fallback.setup.replace("%s = (void *)mk_instance" % me, "comp = mk_instance"); j.fallback.name = j.name + ".small"
    return j

def vec_job(model, ver, what, refused=False, mem=False):
    fn = FN[ver][what]; p = protos(ver)[fn]; me = selfname(ver)
    av, an = p.params[1][1], p.params[2][1]
    n, c = count(model, what), cap(model, what)
    al = [m for m in (ALLOWED3 if ver == 3 else ALLOWED2)[fn] if m != "ClockActivationMode" or model == "Clocks"]
    req = ["%s != NULL && %s" % (me, mode_in(al, "MI->state"))]
    spec = [spec_decls(model, ver, []), SMALL, "static double XX[%d], X0[%d]; static ModelInstance TT;" % (c, c)]
    S = ["  __CPROVER_assume(valid_in(&IN.inst)); %s = (void *)mk_instance(&IN.inst); OLD = *g_inst; TT = OLD;" % me]
    S += ["  XX[%d] = X0[%d] = IN.x[%d];" % (i, i, i) for i in range(c)]
    setter = what == "set"
    base = base_expr(model, ver, "g_inst->modelData.", "TT.modelData.")
    can = [("reached", "1")]
    stub = model == "StateSpace" and what == "der"
    rem = ("logError", "logEvent")
    inputs = "struct inst_in inst; ModelData calc; double x[%d]; uint64_t n; uint8_t null, w;" % c
    if refused:
        S += ["  %s = IN.n; %s = IN.null ? NULL : XX;" % (an, av)]
        req += ["%s != %s || (%s == NULL && %s)" % (an, n, av, "1" if cap(model, what) and (NZ if what == "ind" else NX).get(model, 0) else "0")]
        ens = [("refused", "RETV == %s && MI->state == Terminated" % ERR[ver]), ("states-unchanged", base), ("rest-unchanged", FRAME)]
        can = [("size", "%s != %s" % (an, n))] + ([("null", "%s == NULL && %s == %s" % (av, an, n))] if (NZ if what == "ind" else NX).get(model, 0) else [])
        if model not in ("Stair", "Clocks", "Resource", "Feedthrough"): spec += [calc_abs_decl(model, ver), calc_mem_stub(model, ver)]; rem += ("calculateValues",)
    else:
        S += ["  %s = %s; %s = %s;" % (an, n, av, "XX")]
        if model == "StateSpace" and what != "set": can += [("full", "OLD.modelData.n == 5")]
        ens = [("succeeds", "RETV == %s" % OKS[ver])]
        if setter: S += ["  %s D(%s) = IN.x[%d];" % ("if (%d < D(n))" % i if model == "StateSpace" else "", s, i) for i, s in enumerate(states(model))]
        elif what == "get": ens += [("state%d" % i, "IMP(%d < %s, DEQ(XX[%d], OLD.modelData.%s))" % (i, n, i, s)) for i, s in enumerate(states(model))]
        elif what == "nom": ens += [("nominal%d" % i, "IMP(%d < %s, XX[%d] == %s)" % (i, n, i, v)) for i, v in enumerate(SPEC[model]["nominals"])]
        elif what == "der":
            if stub: spec += [calc_abs_decl(model, ver), calc_stub(model, ver)]; rem += ("calculateValues",); S.insert(1, "  __CPROVER_assume(valid_data(&IN.calc)); CALC = IN.calc;"); S += ["  want_calc(s);"]
            else: S += ["  spec_calc(s);"]
            ders = ["der_x[%d]" % i for i in range(5)] if model == "StateSpace" else SPEC[model]["ders"]
            ens += [("derivative%d" % i, "IMP(%d < %s, DEQ(XX[%d], TT.modelData.%s))" % (i, n, i, d)) for i, d in enumerate(ders)]
        else:
            S += (["  spec_calc(s);"] if SPEC[model]["ind"] else []) + ["  Z[%d] = %s;" % (i, e) for i, e in enumerate(SPEC[model]["ind"])]
            spec.append("static double Z[2];")
            ens += [("indicator%d" % i, "DEQ(XX[%d], Z[%d])" % (i, i)) for i, e in enumerate(SPEC[model]["ind"])]
        S.insert(1, "  ModelInstance *s = &TT; (void)s;")
        ens += [("mode", "MI->state == OLD.state"), ("settable-variables" if not setter else "states-set", base), ("rest-unchanged", FRAME)]
        if not setter and what == "nom" and not stub and model not in ("Stair", "Clocks", "Resource", "Feedthrough"):
            spec += [calc_abs_decl(model, ver), calc_mem_stub(model, ver)]; rem += ("calculateValues",)
    fp = what in ("der", "ind", "get") and model in ("Roberts", "Dahlquist", "VanDerPol", "BouncingBall") and not refused
    j = Job("%s%d.%s%s" % (model, ver, fn, ".refused" if refused else ".memory" if mem else ""), fmu_unit(model, ver), Contract.of(p, requires=req, assigns=["__CPROVER_object_whole(g_inst)", "__CPROVER_object_whole(XX)", "g_log"], ensures=ens), inputs=inputs, decls=inst_decls(model, ver),
            spec_decls="\n".join(spec), setup="\n".join(S), canaries=can, unwind=8, removed=rem, solver="z3" if fp else None, mem=mem, timeout=100 if fp else 200)
    if fp:
        import copy
        fb = copy.copy(j); fb.solver = None; fb.setup = S[0] + "\n" + "\n".join(small(model, ver)) + "\n" + "\n".join(S[1:]); fb.kind = "bounded"; fb.bound = "small set of numbers"; fb.name += ".small"
        j.fallback = fb
    return j

def count_job(model, what):
    fn = "fmi3GetNumberOfEventIndicators" if what == "ind" else "fmi3GetNumberOfContinuousStates"
    out = "nEventIndicators" if what == "ind" else "nContinuousStates"
    S = ["  __CPROVER_assume(valid_in(&IN.inst)); instance = (void *)mk_instance(&IN.inst); OLD = *g_inst; static size_t N; N = IN.n; %s = &N;" % out]
    return Job("%s3.%s" % (model, fn), fmu_unit(model, 3), Contract.of(protos(3)[fn], requires=["instance != NULL"], assigns=["__CPROVER_object_whole(%s)" % out],
               ensures=[("succeeds", "RETV == fmi3OK"), ("number", "*%s == %s" % (out, count(model, what))), ("unchanged", "same_all(MI, &OLD)")]), inputs="struct inst_in inst; uint64_t n;", decls=inst_decls(model, 3), setup="\n".join(S), canaries=[("reached", "1")])

def calc_job(model, ver):
    """calculateValues: calculated variables follow the model equations, nothing else changes"""
    base = base_expr(model, ver, "g_inst->modelData.", "OLD.modelData.")
    spec = [spec_decls(model, ver, []), SMALL, "static ModelInstance TT;"]
    S = ["  __CPROVER_assume(valid_in(&IN.inst)); comp = mk_instance(&IN.inst); OLD = *g_inst; TT = OLD; ModelInstance *s = &TT; spec_calc(s);"]
    eq = same_fields(derived_fields(model, ver), "g_inst->modelData.", "TT.modelData.")
    if model == "Roberts": eq += " && IMP(!OLD.modelData.dae, DEQ(g_inst->modelData.y3, TT.modelData.y3))"
    ens = [("succeeds", "RETV == OK"), ("clean", "!g_inst->isDirtyValues"), ("equations", eq), ("settable-variables", base), ("rest-unchanged", "same_but_data(g_inst, &OLD) && g_inst->state == OLD.state"), ("data-valid", "valid_data(&g_inst->modelData)")]
    if model == "Feedthrough":
        ens += [("string", "IMP(IN.k < 128, g_inst->modelData.String_output[IN.k] == (IN.k <= IN.len ? OLD.modelData.String_input[IN.k] : 0))"), ("binary", "IMP(IN.k < OLD.modelData.Binary_input_size, g_inst->modelData.Binary_output[IN.k] == OLD.modelData.Binary_input[IN.k])")]
        S += ["  __CPROVER_assume(IN.len < 128 && OLD.modelData.String_input[IN.len] == 0);", "  for (int k = 0; k < 127; k++) __CPROVER_assume(k >= IN.len || OLD.modelData.String_input[k] != 0);"]
    fp = model in ("Roberts", "Dahlquist", "VanDerPol")
    j = Job("%s%d.calculateValues" % (model, ver), fmu_unit(model, ver), Contract("Status", "calculateValues", [("ModelInstance *", "comp", "")], requires=["comp == g_inst"], assigns=["g_log"] + [a.replace("comp->", "g_inst->") for a in calc_assigns(model, ver)], ensures=ens),
            inputs="struct inst_in inst; uint8_t k, len;", decls=inst_decls(model, ver), spec_decls="\n".join(spec), setup="\n".join(S), canaries=[("reached", "1")], unwind=8, assigns_decide=True,
            unwindset=["harness.0:130", "strncpy.0:130"] if model == "Feedthrough" else [], max_unwind=16, solver="z3" if fp else None, timeout=100 if fp else 200)
    if fp:
        import copy
        fb = copy.copy(j); fb.solver = None; fb.setup = "  __CPROVER_assume(valid_in(&IN.inst));\n" + "\n".join(small(model, ver)) + "\n" + "\n".join(S); fb.kind = "bounded"; fb.bound = "small set of numbers"; fb.name += ".small"
        j.fallback = fb
    j.weight = 6
    return j

def ss_calc_job(m, n, r):
    """StateSpace equations with these dimensions"""
    j = calc_job("StateSpace", 3)
    j.setup = j.setup.replace("TT = OLD;", "__CPROVER_assume(IN.inst.md.m == %d && IN.inst.md.n == %d && IN.inst.md.r == %d); g_inst->modelData.m = OLD.modelData.m = %d; g_inst->modelData.n = OLD.modelData.n = %d; g_inst->modelData.r = OLD.modelData.r = %d; TT = OLD;" % (m, n, r, m, n, r))
    j.name += ".m%dn%dr%d" % (m, n, r); j.solver = "z3"; j.kind = "bounded"; j.bound = "dimensions %d,%d,%d" % (m, n, r)
    return j

def calc_jobs():
    out = [calc_job(m, v) for v in (3, 2) for m, _ in units(v) if m not in ("Stair", "Clocks", "Resource", "StateSpace")]
    dims = [(1, 2, 3), (3, 1, 2), (5, 5, 5), (0, 3, 1)] if TIER != "thorough" else [(a, b, c) for a in range(6) for b in range(6) for c in range(6)]
    return out + [ss_calc_job(*d) for d in dims]

def jobs17():
    out = []
    for ver in (3, 2):
        for m, v in units(ver):
            for w in ("set", "get", "nom"):
                out += [vec_job(m, v, w), vec_job(m, v, w, True)]
            for w in ("der", "ind"): out.append(vec_job(m, v, w, True))
            if ver == 3: out += [count_job(m, "ind"), count_job(m, "x")]
    return out
def jobs18(): return [vec_job(m, v, w) for ver in (3, 2) for m, v in units(ver) for w in ("der", "ind")] + calc_jobs()

ASSUME = ["logError/logEvent bodies replaced by stubs that only count (their real bodies are verified by C23)",
          "instance memory was obtained from instantiation (valid object), the mode is one the FMU can reach and the model variables satisfy the data invariant",
          "caller vectors are valid for the passed length (or null) and do not overlap the instance",
          "calculateValues of StateSpace inside the derivative function replaced by its contract, which the calculateValues jobs of C18 discharge; in the refusal and nominal jobs it is a stub that only touches calculated variables"]
