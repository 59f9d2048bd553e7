"""C04-C08: variable access through the FMI functions (real loops and real model getters/setters inlined)."""
from models import *

API2 = {"Float64": "Real", "Int32": "Integer", "Boolean": "Boolean", "String": "String"}
def api(ver, d, T): return ("fmi3" if ver == 3 else "fmi2") + d + (T if ver == 3 else API2[T])
def cty(ver, T): return "int" if (ver == 2 and T == "Boolean") else CT[T]
def veq(T, a, b): return "feq(%s, %s)" % (a, b) if T == "Float64" else "feqf(%s, %s)" % (a, b) if T == "Float32" else "%s == %s" % (a, b)
def typed(model, ver, d):
    t = gets(model, ver) if d == "Get" else sets(model, ver)
    return [T for T in t if ver == 3 or T in API2]
def wide(model, T): return model == "StateSpace" and T == "Float64"

import c04ss, c04str

class Access:
    """harness pieces shared by the numeric access jobs"""
    def __init__(self, model, ver, d, T, N, VB, exact):
        self.model, self.ver, self.d, self.T, self.N, self.VB = model, ver, d, T, N, VB
        self.fn = api(ver, d, T); self.p = protos(ver)[self.fn]
        me = selfname(ver); c = cty(ver, T)
        fld = "uint8_t" if T == "Boolean" and ver == 3 else c
        self.inputs = ["struct inst_in inst; uint32_t vr[%d]; uint8_t n, nv, nullvr, nullval; %s val[%d]; uint8_t w;" % (N, fld, VB)]
        self.spec = [spec_decls(model, ver, [T]),
            "static uint32_t VR[%d]; static %s VV[%d], V0[%d], WANT[%d]; static ModelInstance TT; static int ok_types, ok_total, ok_mode, ok_val, nput; static long pos; static size_t NV;" % (N, c, VB + 1, VB + 1, VB + 26)]
        a_vr = "valueReferences" if ver == 3 else "vr"; a_n = "nValueReferences" if ver == 3 else "nvr"; a_v = "values" if ver == 3 else "value"
        self.vr, self.n, self.v = a_vr, a_n, a_v
        S = ["  __CPROVER_assume(valid_in(&IN.inst) && IN.n <= %d && IN.nv <= %d && IN.nullvr <= 1 && IN.nullval <= 1);" % (N, VB), "  %s = (void *)mk_instance(&IN.inst);" % me]
        if ver == 2: S.append("  __CPROVER_assume(IN.nv == IN.n);")
        S += ["  NV = IN.nv; %s = IN.n;" % a_n] + (["  nValues = NV;"] if ver == 3 else [])
        if T == "Boolean" and ver == 3: S += ["  for (size_t k = 0; k < %d; k++) __CPROVER_assume(IN.val[k] <= 1);" % VB]
        # arrays end exactly where the request ends, so an access beyond it leaves the object
        S += ["  for (size_t k = 0; k < %d; k++) VR[k] = 0;" % N, "  for (size_t k = 0; k < IN.n; k++) VR[%d - IN.n + k] = IN.vr[k];" % N, "  for (size_t k = 0; k <= %d; k++) VV[k] = 0;" % VB,
              "  for (size_t k = 0; k < NV; k++) VV[%d - NV + k] = %s;" % (VB + 1, "IN.val[k] != 0" if T == "Boolean" and ver == 3 else "IN.val[k]"),
              "  for (size_t k = 0; k <= %d; k++) V0[k] = VV[k];" % VB,
              "  %s = IN.nullvr ? NULL : VR + (%d - IN.n); %s = IN.nullval ? NULL : VV + (%d - NV);" % (a_vr, N, a_v, VB + 1)]
        S += ["  OLD = *g_inst; TT = OLD; pos = 0; ok_types = ok_mode = ok_val = 1; nput = 0; ModelInstance *s = &TT;"]
        if d == "Get":
            self.inputs.append("ModelData calc;"); self.spec.append(calc_abs_decl(model, ver))
            S.insert(1, "  __CPROVER_assume(valid_data(&IN.calc)); CALC = IN.calc;")
            S += ["  want_calc(s);"]
            S += ["  for (size_t i = 0; i < %d && i < IN.n; i++) { long c = spec_count_%s(s, IN.vr[i]); if (c < 0 || !ok_types) { ok_types = 0; continue; } " % (N, T),
                  "    for (long k = 0; k < c && k < %d && pos + k < %d; k++) WANT[pos + k] = spec_get_%s(s, IN.vr[i], (size_t)k); pos += c; }" % (25 if wide(model, T) else 1, VB, T)]
        else:
            S += ["  for (size_t i = 0; i < %d && i < IN.n; i++) { long c = spec_wcount_%s(s, IN.vr[i]); if (c < 0) { ok_types = 0; } if (!ok_types || !ok_mode || !ok_val) continue;" % (N, T),
                  "    if (pos + c > (long)NV) { ok_types = 0; continue; }",
                  "    if (!spec_mode_%s(s, IN.vr[i])) { ok_mode = 0; continue; }" % T,
                  "    for (long k = 0; k < c && k < %d && pos + k < %d; k++) { %s v = IN.val[pos + k] %s; if (!spec_valok_%s(IN.vr[i], v)) ok_val = 0; else spec_put_%s(s, IN.vr[i], (size_t)k, v); } pos += c; nput++; }" % (25 if wide(model, T) else 1, VB, CT[T], "!= 0" if T == "Boolean" else "", T, T)]
        S += ["  ok_total = pos == (long)NV;"]
        self.setup = S
        self.assigns = ["__CPROVER_object_whole(g_inst)", "g_log"] + (["__CPROVER_object_whole(VV)"] if d == "Get" else [])
        al = (ALLOWED3 if ver == 3 else ALLOWED2)[self.fn]
        self.allowed = [m for m in al if m != "ClockActivationMode" or model == "Clocks"]
        self.req = ["%s != NULL && %s" % (me, mode_in(self.allowed, "MI->state"))]
    def job(self, tag, req, ens, can, **kw):
        big = wide(self.model, self.T)
        j = Job("%s%d.%s" % (self.model, self.ver, self.fn) + (".%s" % tag if tag else ""), fmu_unit(self.model, self.ver), Contract.of(self.p, requires=self.req + req, assigns=self.assigns, ensures=ens), inputs="\n".join(self.inputs),
                decls=inst_decls(self.model, self.ver), spec_decls="\n".join(self.spec), setup="\n".join(self.setup), canaries=can, unwind=max(self.N + 2, self.VB + 3, 7 if self.model == "StateSpace" else 0, 27 if big else 0), kind="bounded", **kw)
        if self.d == "Get":
            st = calc_stub(self.model, self.ver)
            if st: j.spec_decls += "\n" + st; j.removed = j.removed + ("calculateValues",)
        j.bound = "lists of at most %d value references" % self.N
        return j

def size(model, T, quick_n=2):
    if wide(model, T): return (1, 25)
    n = 3 if TIER == "thorough" else quick_n
    return (n, n)

FRAME = "same_but_data(MI, &OLD)"
def read_job(model, ver, T):
    N, VB = size(model, T)
    a = Access(model, ver, "Get", T, N, VB, True)
    ens = [("values-in-order", "IMP(RETV == %s && IN.w < NV, %s)" % (OKS[ver], veq(T, a.v + "[IN.w]", "WANT[IN.w]"))),
           ("settable-variables-unchanged", "same_base(MI, &OLD)"), ("rest-unchanged", FRAME), ("mode", "IMP(RETV == %s, MI->state == OLD.state)" % OKS[ver])]
    if model != "Resource": ens = [("succeeds", "RETV == %s" % OKS[ver])] + ens
    req = ["IN.n >= 1 && ok_types && ok_total && %s != NULL && %s != NULL" % (a.vr, a.v)]
    if model == "Resource": ens = [(n, "IN.vr[0] != 1 && IN.vr[1] != 1 ? (%s) : 1" % e) if n == "values-in-order" else (n, e) for n, e in ens]
    return a.job("", req, ens, [("full", "IN.n == %d" % N), ("dirty", "IN.inst.dirty"), ("clean", "!IN.inst.dirty")])

def write_job(model, ver, T):
    N, VB = size(model, T)
    a = Access(model, ver, "Set", T, N, VB, True)
    ens = [("succeeds", "RETV == %s" % OKS[ver]), ("values-stored", "same_base(MI, &TT)"), ("rest-unchanged", FRAME), ("mode", "MI->state == OLD.state")]
    req = ["IN.n >= 1 && ok_types && ok_total && ok_mode && ok_val && %s != NULL && %s != NULL" % (a.vr, a.v)]
    return a.job("", req, ens, [("full", "IN.n == %d" % N)])

def protect_job(model, ver, T):
    N, VB = size(model, T)
    a = Access(model, ver, "Set", T, N, VB, True)
    ens = [("refused", "RETV == %s && MI->state == Terminated" % ERR[ver]), ("stored-value-unchanged", "same_base(MI, &TT)"), ("rest-unchanged", FRAME)]
    req = ["IN.n >= 1 && ok_types && (!ok_mode || !ok_val) && %s != NULL && %s != NULL" % (a.vr, a.v)]
    sp = sets(model, ver)[T]
    can = [("mode", "!ok_mode")] if any(e[2] != ANY for e in sp) else []
    if any(e[3] != "1" for e in sp): can.append(("value", "!ok_val"))
    return a.job("refused", req, ens, can)

def invalid_job(model, ver, d, T):
    N, VB = (1, 25) if wide(model, T) else (2, 3) if TIER != "thorough" else (3, 4)
    a = Access(model, ver, d, T, N, VB, False)
    inv = "%s == NULL || (%s == NULL && NV > 0) || !ok_types || (ok_mode && ok_val && !ok_total)" % (a.vr, a.v)
    ens = [("refused", "IMP(IN.n > 0, RETV == %s && MI->state == Terminated)" % ERR[ver]),
           ("empty-request", "IMP(IN.n == 0, RETV == %s && MI->state == OLD.state && same_base(MI, &OLD) && %s)" % (OKS[ver], FRAME))]
    known = gets(model, ver).get(T) if d == "Get" else sets(model, ver).get(T)
    can = [("empty", "IN.n == 0"), ("novr", "IN.n && IN.nullvr"), ("noval", "IN.n && IN.nullval"), ("unknown", "IN.n && !ok_types && !IN.nullvr && !IN.nullval")]
    if known and ver == 3: can += [("count", "IN.n && ok_types && !ok_total")]
    j = a.job("invalid", ["IN.n == 0 || %s" % inv], ens, can)
    return j

def memory_job(model, ver, d, T, n, nv, null):
    """concrete counts; the caller's arrays have exactly these sizes; references and mode arbitrary"""
    a = Access(model, ver, d, T, n, nv, False)
    me = selfname(ver); c = cty(ver, T); fld = "uint8_t" if T == "Boolean" and ver == 3 else c
    z = max(nv, 1)
    inputs = "struct inst_in inst; ModelData calc; uint32_t vr[%d]; uint8_t nullvr, nullval; %s val[%d]; uint8_t w;" % (n, fld, z)
    spec = [spec_decls(model, ver, []), calc_abs_decl(model, ver), "static uint32_t VR[%d]; static %s VV[%d], V0[%d];" % (n, c, z, z)]
    S = ["  __CPROVER_assume(valid_in(&IN.inst) && valid_data(&IN.calc)); CALC = IN.calc; %s = (void *)mk_instance(&IN.inst); OLD = *g_inst;" % me]
    S += ["  %s = %d;" % (a.n, n)] + (["  nValues = %d;" % nv] if ver == 3 else [])
    for k in range(n): S.append("  VR[%d] = IN.vr[%d];" % (k, k))
    for k in range(z):
        if fld == "uint8_t" and c != fld: S.append("  __CPROVER_assume(IN.val[%d] <= 1); VV[%d] = V0[%d] = IN.val[%d] != 0;" % (k, k, k, k))
        else: S.append("  VV[%d] = V0[%d] = IN.val[%d];" % (k, k, k))
    v = "VV" if nv else "VV + 1"
    S.append("  %s = %s; %s = %s;" % (a.vr, "IN.nullvr ? NULL : VR" if null else "VR", a.v, "IN.nullval ? NULL : " + v if null else v))
    ens = [("data-valid", "valid_data(&MI->modelData)")]
    if d == "Set": ens.append(("values-untouched", "IMP(IN.w < %d, %s)" % (z, veq(T, "VV[IN.w]", "V0[IN.w]"))))
    j = Job("%s%d.%s.memory%d-%d%s" % (model, ver, a.fn, n, nv, "-null" if null else ""), fmu_unit(model, ver), Contract.of(a.p, requires=a.req, assigns=a.assigns, ensures=ens), inputs=inputs, decls=inst_decls(model, ver), spec_decls="\n".join(spec),
            setup="\n".join(S), canaries=[("any", "1")] + ([("null", "IN.nullvr && IN.nullval")] if null else []), unwind=max(n + 2, 7 if model == "StateSpace" else 4), kind="bounded", mem=True, assigns_decide=True)
    if d == "Get":
        st = calc_mem_stub(model, ver)
        if st: j.spec_decls += "\n" + st; j.removed = j.removed + ("calculateValues",)
    j.bound = "lists of %d value references and %d values" % (n, nv)
    return j

def pairs(ver, d): return [(m, v, T) for m, v in units(ver) for T in typed(m, v, d)]
def protected(e): return e[2] != ANY or e[3] != "1"

def order(js):
    for j in js:
        j.weight = 9 if "StateSpace" in j.name or "Feedthrough" in j.name else 8 if "Roberts" in j.name else 1
    return js
def jobs04():
    import c17, c04l
    return order(c04l.access("Get") + c17.calc_jobs() + c04ss.jobs("read") + c04str.jobs("read") + [read_job(m, v, T) for ver in (3, 2) for m, v, T in pairs(ver, "Get") if T not in ("String", "Binary") and not wide(m, T)])
def jobs05():
    import c04l
    return order(c04l.access("Set") + c04ss.jobs("write") + c04str.jobs("write") + [write_job(m, v, T) for ver in (3, 2) for m, v, T in pairs(ver, "Set") if T not in ("String", "Binary") and not wide(m, T)])
def jobs08():
    import c04l
    return order(c04l.protection() + c04ss.jobs("refused") + c04str.jobs("refused") + [protect_job(m, v, T) for ver in (3, 2) for m, v, T in pairs(ver, "Set") if T not in ("String", "Binary") and not wide(m, T) and any(protected(e) for e in sets(m, v)[T])])
def alltypes(ver): return [T for T in CT if T not in ("String", "Binary") and (ver == 3 or T in API2)]
def jobs06():
    import c04l
    out = c04l.refusals() + c04ss.jobs("invalid") + c04str.jobs("invalid")
    for ver in (3, 2):
        for m, v in units(ver):
            for d in ("Get", "Set"):
                for T in [t for t in alltypes(ver) if not wide(m, t)]:
                    if T not in typed(m, v, d) and TIER != "thorough" and m != "BouncingBall": continue
                    out.append(invalid_job(m, v, d, T))
    return order(out)
def jobs07():
    conf = lambda ver: [(2, 1, False), (1, 1, True)] if ver == 3 else [(2, 2, True)]
    if TIER == "thorough": conf = lambda ver: [(3, 2, False), (3, 3, False), (2, 1, False), (1, 0, False), (1, 1, True)] if ver == 3 else [(1, 1, True), (3, 3, False)]
    import c04l
    return order(c04l.memory() + c04ss.jobs("memory") + c04str.jobs("memory") + [memory_job(m, v, d, T, *c) for ver in (3, 2) for d in ("Get", "Set") for m, v, T in pairs(ver, d) if T not in ("String", "Binary") and not wide(m, T) for c in conf(ver)])

ASSUME = ["logError/logEvent bodies replaced by stubs that only count (their real bodies are verified by C23)",
          "instance memory was obtained from instantiation (valid object), the mode is one the FMU can reach and the model variables satisfy the data invariant (booleans 0/1, string terminated, sizes and dimensions within their limits)",
          "calculateValues of Resource (file access) replaced by its contract, which C24 discharges",
          "caller arrays are valid for the passed counts (or null) and do not overlap each other or the instance"]
