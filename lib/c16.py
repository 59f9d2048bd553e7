"""C16: one internal step (doFixedStep) of every model; C19: event updates; used as contracts by C14/C15."""
import copy
from models import *
from c17 import SMALL, small, states, vec_job, inner

def step_job(model, ver):
    """doFixedStep with the model's state functions replaced by their contracts (X, DX, Z: values they deliver)"""
    nx, nz = NX.get(model, 0), NZ.get(model, 0)
    ss = model == "StateSpace"
    n = "OLD.modelData.n" if ss else str(nx)
    spec = [spec_decls(model, ver, []), "static bool SE, TE; static double X[5], DX[5], Z[2], NEWX[5]; static int nget, nder, nset, nind;"]
    rem = ("logError", "logEvent")
    if nx or nz: spec.append("#ifndef REPLAY")
    if nx:
        data = same_fields(data_fields(model, ver), "comp->modelData.", "OLD.modelData.") if not ss else "comp->modelData.n == OLD.modelData.n"
        spec += ["Status getContinuousStates(ModelInstance *comp, double x[], size_t nx) { __CPROVER_assert(comp == g_inst && nx == %s && nset == 0 && %s, \"ens:get-states-call\"); nget++; %s return OK; }" % (n, data, " ".join("if (%d < nx) x[%d] = X[%d];" % (i, i, i) for i in range(nx))),
                 "Status getDerivatives(ModelInstance *comp, double dx[], size_t nx) { __CPROVER_assert(comp == g_inst && nx == %s && nset == 0 && DEQ(comp->time, OLD.time) && %s, \"ens:derivatives-before-step\"); nder++; %s return OK; }" % (n, data, " ".join("if (%d < nx) dx[%d] = DX[%d];" % (i, i, i) for i in range(nx))),
                 "Status setContinuousStates(ModelInstance *comp, const double x[], size_t nx) { __CPROVER_assert(comp == g_inst && nx == %s, \"ens:set-states-call\"); nset++; %s return OK; }" % (n, " ".join("if (%d < nx) NEWX[%d] = x[%d];" % (i, i, i) for i in range(nx)))]
        rem += ("getContinuousStates", "getDerivatives", "setContinuousStates")
    if nz:
        spec += ["Status getEventIndicators(ModelInstance *comp, double z[], size_t nz) { __CPROVER_assert(comp == g_inst && nz == %d && nset == 1 && comp->nSteps == OLD.nSteps + 1, \"ens:indicators-after-step\"); nind++; %s return OK; }" % (nz, " ".join("z[%d] = Z[%d];" % (i, i) for i in range(nz)))]
        rem += ("getEventIndicators",)
    if nx or nz: spec.append("#endif")
    S = ["  __CPROVER_assume(valid_in(&IN.inst) && IN.se <= 1 && IN.te <= 1%s%s); comp = mk_instance(&IN.inst); OLD = *g_inst; SE = IN.se != 0; TE = IN.te != 0; stateEvent = &SE; timeEvent = &TE;" % (
        (" && IN.inst.nx == IN.inst.md.n" if ss else " && IN.inst.nx == %d" % nx) if nx else "", " && IN.inst.nz == %d" % nz if nz else "")]
    if nx and not ss: S += ["  comp->nx = %d; OLD.nx = %d;" % (nx, nx)]
    if nz: S += ["  comp->nz = %d; OLD.nz = %d;" % (nz, nz)]
    S += ["#ifdef REPLAY", "  { static ModelInstance T2; T2 = OLD; ModelInstance *s = &T2; spec_calc(s);"]
    ders = ["der_x[%d]" % i for i in range(5)] if ss else SPEC[model]["ders"]
    for i, (x, d) in enumerate(zip(states(model), ders)): S += ["  X[%d] = D(%s); DX[%d] = D(%s);" % (i, x, i, d)]
    if nx: S += ["  %sD(%s) = X[%d] + (%s) * DX[%d];" % ("if (%d < D(n)) " % i if ss else "", x, i, STEP[model], i) for i, x in enumerate(states(model))] + ["  spec_calc(s);"]
    S += ["  Z[%d] = %s;" % (i, e) for i, e in enumerate(SPEC[model]["ind"])]
    S += ["  (void)s; }", "#else"] + ["  X[%d] = IN.x[%d]; DX[%d] = IN.dx[%d];" % (i, i, i, i) for i in range(nx)] + ["  Z[%d] = IN.z[%d];" % (i, i) for i in range(nz)] + ["#endif", "  nget = nder = nset = nind = 0;"]
    ens = [("succeeds", "RETV == OK"), ("step-counter", "g_inst->nSteps == OLD.nSteps + 1"),
           ("time-on-grid", "DEQ(g_inst->time, OLD.startTime + (OLD.nSteps + 1) * (%s))" % STEP[model]),
           ("time-event", "TE == (OLD.nextEventTimeDefined && g_inst->time >= OLD.nextEventTime)")]
    if nx:
        ens += [("euler-step%d" % i, "IMP(%d < %s, DEQ(%s, X[%d] + (%s) * DX[%d]))" % (i, n, "EULER(%d, %s)" % (i, x), i, STEP[model], i)) for i, x in enumerate(states(model))]
        spec += ["#ifdef REPLAY", "#define EULER(i, f) (g_inst->modelData.f)", "#define CALLS 1", "#else", "#define EULER(i, f) NEWX[i]", "#define CALLS (%s(nget == 1 && nder == 1 && nset == 1))" % ("(OLD.modelData.n == 0 && nset == 0) || " if ss else ""), "#endif"]
        ens += [("states-set-once", "CALLS")]
    if nz:
        zc = " || ".join("(OLD.prez[%d] <= 0 && Z[%d] > 0) || (OLD.prez[%d] > 0 && Z[%d] <= 0)" % (i, i, i, i) for i in range(nz))
        ens += [("state-event", "SE == (%s)" % zc)] + [("indicator%d-remembered" % i, "DEQ(g_inst->prez[%d], Z[%d])" % (i, i)) for i in range(nz)]
    else: ens += [("no-state-event", "!SE")]
    fields = base_fields(model, ver) if nx else data_fields(model, ver)
    other = same_fields([f for f in fields if f[1] not in SPEC[model]["states"] and not (model == "Roberts" and f[1] == "y3")], "g_inst->modelData.", "OLD.modelData.")
    ens += [("intermediate-update", "g_iu == (OLD.intermediateUpdate != NULL) && IMP(g_iu, DEQ(g_iu_time, g_inst->time) && g_iu_flags == 6 && g_env_seen == OLD.componentEnvironment)"),
            ("other-variables", other),
            ("rest-unchanged", "same_id(g_inst, &OLD) && same_log(g_inst, &OLD) && same_flags(g_inst, &OLD) && same_limits(g_inst, &OLD) && same_comm(g_inst, &OLD) && same_evt(g_inst, &OLD) && g_inst->state == OLD.state")]
    params = [("ModelInstance *", "comp", ""), ("bool *", "stateEvent", ""), ("bool *", "timeEvent", "")]
    can = [("callback", "IN.inst.hasIU"), ("time-event", "TE")] + ([("state-event", "SE")] if nz else [])
    j = Job("%s%d.doFixedStep" % (model, ver), fmu_unit(model, ver), Contract("Status", "doFixedStep", params, requires=["comp == g_inst"], assigns=["__CPROVER_object_whole(g_inst)", "SE", "TE", "NEWX", "nget", "nder", "nset", "nind", "g_log", "g_iu", "g_iu_time", "g_iu_flags", "g_env_seen"], ensures=ens),
            inputs="struct inst_in inst; double x[5], dx[5], z[2]; uint8_t se, te;", decls=inst_decls(model, ver), spec_decls="\n".join(spec), setup="\n".join(S), canaries=can, unwind=8, removed=rem, solver="z3", timeout=150)
    fb = copy.copy(j); fb.solver = None; fb.kind = "bounded"; fb.bound = "small set of numbers"; fb.name += ".small"; fb.spec_decls = SMALL + "\n" + fb.spec_decls
    fb.setup = "\n".join(small(model, ver) + ["  __CPROVER_assume(small(IN.inst.startTime) && IN.inst.nSteps <= 10);"] + ["  __CPROVER_assume(small(IN.x[%d]) && small(IN.dx[%d]));" % (i, i) for i in range(nx)] + S)
    j.fallback = fb
    j.weight = 9
    return j

def event_job(model, ver):
    """only the event detection of an internal step (no arithmetic to compare, so plain SAT suffices)"""
    j = step_job(model, ver)
    j.contract.ensures = [(n, e) for n, e in j.contract.ensures if n in ("succeeds", "time-event", "state-event", "no-state-event", "intermediate-update") or n.startswith("indicator")]
    j.name += ".events"; j.solver = None; j.fallback = None; j.weight = 1
    return j

def jobs():
    out = [step_job(m, v) for ver in (3, 2) for m, v in units(ver)]
    for ver in (3, 2):
        for m, v in units(ver):
            if m in NX: out += [inner(vec_job(m, v, w), w) for w in ("get", "der", "set")]
            if m in NZ: out.append(inner(vec_job(m, v, "ind"), "ind"))
    return out
ASSUME = ["logError/logEvent bodies replaced by stubs that only count (their real bodies are verified by C23)",
          "the instance has been configured (nx, nz equal the model's counts), its mode is reachable and its variables satisfy the data invariant",
          "inside doFixedStep the model's getContinuousStates, getDerivatives, setContinuousStates and getEventIndicators are replaced by their contracts, which further jobs of this check discharge against the real functions (calculateValues of StateSpace: C18)",
          "the intermediate-update callback does not call back into the FMU"]
