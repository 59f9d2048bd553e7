"""C01/C02: calls made in a forbidden mode or on a null instance are rejected without side effects."""
from fmu import *

def job(model, ver, fn):
    p = protos(ver)[fn]
    allowed = (ALLOWED3 if ver == 3 else ALLOWED2).get(fn)
    unsupported = ver == 3 and fn in UNSUPPORTED3
    reach = REACH3 if ver == 3 else REACH2
    me = selfname(ver)
    inputs = ["struct inst_in inst; uint8_t nullinst;"]
    setup = ["  __CPROVER_assume(valid_in(&IN.inst) && IN.nullinst <= 1);", "  ModelInstance *I0 = mk_instance(&IN.inst);",
             "  %s = IN.nullinst ? NULL : (void *)I0;" % me]
    decls, ens, assigns = [], [], ["__CPROVER_object_whole(g_inst)", "g_log"]
    spec = []
    for t, n, s in p.params:
        if n == me: continue
        if s or "*" in t:
            base = t.replace("const", "").strip()
            if not s: base = base[:-1].strip() if base.endswith("*") else base
            if base in ("void", "const void"): base = "char"
            spec.append("static union { %s v[2]; uint64_t w[4]; } buf_%s; static uint64_t old_%s[4];" % (base.replace("const", ""), n, n))
            inputs.append("uint64_t b_%s[4]; uint8_t null_%s;" % (n, n))
            setup += ["  buf_%s.w[%d] = old_%s[%d] = IN.b_%s[%d];" % (n, k, n, k, n, k) for k in range(4)]
            setup += ["  __CPROVER_assume(IN.null_%s <= 1); %s = IN.null_%s ? NULL : (void *)buf_%s.v;" % (n, n, n, n)]
            assigns.append("__CPROVER_object_whole(&buf_%s)" % n)
            if not "const" in t:
                ens.append(("argument-%s-untouched" % n, " && ".join("buf_%s.w[%d] == old_%s[%d]" % (n, k, n, k) for k in range(4))))
        elif t.strip() in ("fmi3FMUState", "fmi2FMUstate", "void*", "fmi2String", "fmi3String"):
            setup.append("  %s = NULL;" % n)
        elif "oolean" in t and ver == 3:
            inputs.append("uint8_t a_%s;" % n); setup.append("  __CPROVER_assume(IN.a_%s <= 1); %s = IN.a_%s != 0;" % (n, n, n))
        else:
            inputs.append("%s a_%s;" % (t.replace("const", ""), n)); setup.append("  %s = IN.a_%s;" % (n, n))
    setup += ["  OLD = *I0;"]
    st = "MI->state"
    illegal = []
    if unsupported:
        req = ["1"]
        ens = [("error-status", "RETV == %s" % ERR[ver]), ("nothing-else-changed", "%s == NULL || (same_all(MI, &OLD) && MI->state == OLD.state)" % me)] + ens
        can = [("null", "IN.nullinst"), ("instance", "!IN.nullinst")]
    else:
        illegal = [m for m in reach if m not in allowed]
        req = ["%s == NULL || %s" % (me, mode_in(illegal, st))]
        ens = [("error-status", "RETV == %s" % ERR[ver]), ("terminated", "%s == NULL || %s == Terminated" % (me, st)),
               ("nothing-else-changed", "%s == NULL || same_all(MI, &OLD)" % me)] + ens
        can = [("null", "IN.nullinst")]
        if model != "Clocks" and illegal == ["ClockActivationMode"]: illegal = []
        if illegal: can.append(("illegal", "!IN.nullinst"))
    return Job("%s%d.%s" % (model, ver, fn), fmu_unit(model, ver), Contract.of(p, requires=req, assigns=assigns, ensures=ens),
               inputs="\n".join(inputs), decls=inst_decls(model, ver), spec_decls="\n".join(spec), setup="\n".join(setup), canaries=can, unwind=2, max_unwind=4, mem=unsupported or not illegal)

def jobs(ver):
    table = ALLOWED3 if ver == 3 else ALLOWED2
    fns = list(table) + (UNSUPPORTED3 if ver == 3 else [])
    out = []
    # The rejection happens before any model code runs, so a model matters only through the feature macros of its config.h.
    # quick: all functions on BouncingBall and Clocks (together they enable every macro combination used by most functions),
    # functions that contain feature conditionals on further models; thorough: every function on every model.
    macro_fns = ("ExitInitializationMode", "ExitConfigurationMode", "DoStep", "GetOutputDerivatives", "RealOutputDerivatives", "DirectionalDerivative", "AdjointDerivative")
    full = {"BouncingBall", "Clocks"} if ver == 3 else {"BouncingBall"}
    some = {"Dahlquist", "Feedthrough"}
    for m, v in units(ver):
        for f in fns:
            if f not in protos(ver): raise ToolError("function %s not declared" % f)
            if TIER != "thorough" and m not in full and not (m in some and any(x in f for x in macro_fns)): continue
            if f not in table or not [s for s in (REACH3 if ver == 3 else REACH2) if s not in table[f] and (s != "ClockActivationMode" or m == "Clocks")]:
                if m != "BouncingBall": continue      # only the null-instance case: shared code, one model suffices
            j = job(m, v, f); j.weight = 5 if "DoStep" in f else 1
            out.append(j)
    return out

ASSUME = ["logError/logEvent bodies replaced by stubs that only count (their real bodies are verified by C23)",
          "instance memory was obtained from instantiation (valid object) and the mode is one of the modes the FMU can reach",
          "output arguments are observed through their first 32 bytes"]
