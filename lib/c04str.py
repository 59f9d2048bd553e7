"""C04-C08 for the string and binary variables of Feedthrough (and, for the refusals, of a model without such variables)."""
from models import *

LMAX = 130                      # longest string / binary offered (the limits are 127 characters and 128 bytes)

def fr(model, ver, skip=()):
    """the settable variables other than `skip` are unchanged (array contents by the arbitrary index IN.k)"""
    c = []
    for f in base_fields(model, ver):
        if f[1] in skip: continue
        if f[2]: c.append("IMP(IN.k < %d, g_inst->modelData.%s[IN.k] == OLD.modelData.%s[IN.k])" % (f[2][0], f[1], f[1]))
        else: c.append(same_fields([f], "g_inst->modelData.", "OLD.modelData."))
    return [("other-variables-unchanged", " && ".join(c) or "1"), ("rest-unchanged", "same_but_data(MI, &OLD)")]

def base(model, ver, d, T, n, nv):
    me = selfname(ver); b = T == "Binary"
    fn = ("fmi3" if ver == 3 else "fmi2") + d + T
    avr, an, av = ("valueReferences", "nValueReferences", "values") if ver == 3 else ("vr", "nvr", "value")
    inputs = "struct inst_in inst; uint32_t vr[%d]; uint8_t len, k, nullvr, nullval, nullsz; char s[%d]; uint64_t sz;" % (n, LMAX + 2)
    ct = "const char *" if not b else "const uint8_t *"
    spec = [spec_decls(model, ver, []), "static uint32_t VR[%d]; static char SB[%d]; static %sVV[%d]; static size_t SZ[%d];" % (n, LMAX + 2, ct, max(nv, 1), max(nv, 1))]
    S = ["  __CPROVER_assume(valid_in(&IN.inst) && IN.len <= %d); %s = (void *)mk_instance(&IN.inst); OLD = *g_inst;" % (LMAX, me),
         "  for (int k = 0; k < %d; k++) { if (k < IN.len) __CPROVER_assume(%s); SB[k] = k < IN.len ? IN.s[k] : 0; }" % (LMAX + 2, "IN.s[k] != 0" if not b else "1")]
    S += ["  %s = %d;" % (an, n)] + (["  nValues = %d;" % nv] if ver == 3 else [])
    S += ["  VR[%d] = IN.vr[%d];" % (k, k) for k in range(n)]
    if d == "Set": S += ["  VV[%d] = (%s)SB;" % (k, ct) for k in range(nv)]
    S += ["  SZ[%d] = IN.len;" % k for k in range(nv)] if b else []
    S += ["  %s = VR; %s = (void *)VV;" % (avr, av)] + (["  valueSizes = SZ;"] if b else [])
    al = [m for m in (ALLOWED3 if ver == 3 else ALLOWED2)[fn] if m != "ClockActivationMode" or model == "Clocks"]
    req = ["%s != NULL && %s" % (me, mode_in(al, "MI->state"))]
    asg = ["__CPROVER_object_whole(g_inst)", "g_log"] + (["__CPROVER_object_whole(VV)"] + (["__CPROVER_object_whole(SZ)"] if b else []) if d == "Get" else [])
    return fn, inputs, spec, S, req, asg, (avr, an, av)

def mk(model, ver, d, T, n, nv, tag, req, ens, can, extra=(), mem=False, **kw):
    fn, inputs, spec, S, req0, asg, _ = base(model, ver, d, T, n, nv)
    j = Job("%s%d.%s%s" % (model, ver, fn, "." + tag if tag else ""), fmu_unit(model, ver), Contract.of(protos(ver)[fn], requires=req0 + req, assigns=asg, ensures=ens), inputs=inputs, decls=inst_decls(model, ver),
            spec_decls="\n".join(spec), setup="\n".join(S + list(extra)), canaries=can, unwind=6, unwindset=["harness.0:%d" % (LMAX + 4), "harness.1:%d" % (LMAX + 4), "strlen.0:%d" % (LMAX + 4), "strcpy.0:%d" % (LMAX + 4), "strncpy.0:%d" % (LMAX + 4)], max_unwind=LMAX + 6, mem=mem, assigns_decide=mem, **kw)
    j.weight = 5
    return j

def read(ver, T):
    b = T == "Binary"; vi = 31 if b else 29; f = "Binary_input" if b else "String_input"
    val = "values" if ver == 3 else "value"
    st = "IMP(IN.k < 128 && %s, ((const char *)%s[%d])[IN.k] == OLD.modelData.%s[IN.k])"
    inlen = "IN.k < OLD.modelData.Binary_input_size" if b else "IN.k <= IN.len"
    ens = [("succeeds", "RETV == %s" % OKS[ver])] + [("content%d" % i, st % (inlen, val, i, f)) for i in (0, 1)]
    if b: ens += [("size%d" % i, "valueSizes[%d] == OLD.modelData.Binary_input_size" % i) for i in (0, 1)]
    else: ens += [("terminated%d" % i, "%s[%d][IN.len] == 0" % (val, i)) for i in (0, 1)]
    ens += [("mode", "MI->state == OLD.state")] + fr("Feedthrough", ver)
    # IN.len: length of the stored string
    ex = [] if b else ["  __CPROVER_assume(IN.len < 128 && OLD.modelData.String_input[IN.len] == 0); for (int k = 0; k < 127; k++) __CPROVER_assume(k >= IN.len || OLD.modelData.String_input[k] != 0);"]
    return mk("Feedthrough", ver, "Get", T, 2, 2, "", ["(IN.vr[0] == %d || IN.vr[0] == %d) && (IN.vr[1] == %d || IN.vr[1] == %d)" % (vi, vi + 1, vi, vi + 1)], ens,
              [("both", "IN.vr[0] == %d && IN.vr[1] == %d" % (vi, vi + 1)), ("long", "OLD.modelData.Binary_input_size == 128" if b else "IN.len == 127")], extra=[e.replace("for (int k = 0; k < 127", "for (int k = 0; k < 127") for e in ex], kind="bounded")

def write(ver, T):
    b = T == "Binary"; vi = 31 if b else 29; f = "Binary_input" if b else "String_input"; lim = 128 if b else 127
    ens = [("succeeds", "RETV == %s" % OKS[ver]), ("content-stored", "IMP(IN.k < IN.len, MI->modelData.%s[IN.k] == SB[IN.k])" % f)]
    ens += [("size-stored", "MI->modelData.Binary_input_size == IN.len")] if b else [("terminated", "MI->modelData.String_input[IN.len] == 0")]
    ens += [("mode", "MI->state == OLD.state")] + fr("Feedthrough", ver, ("Binary_input", "Binary_input_size") if b else ("String_input",))
    return mk("Feedthrough", ver, "Set", T, 1, 1, "", ["IN.vr[0] == %d && IN.len <= %d" % (vi, lim)], ens, [("longest", "IN.len == %d" % lim), ("empty", "IN.len == 0")])

def refused(ver, T):
    b = T == "Binary"; vi = 31 if b else 29; lim = 128 if b else 127
    ens = [("refused", "RETV == %s && MI->state == Terminated" % ERR[ver])] + fr("Feedthrough", ver)
    return mk("Feedthrough", ver, "Set", T, 1, 1, "refused", ["IN.vr[0] == %d && IN.len > %d" % (vi, lim)], ens, [("longer", "1")])

def invalid(model, ver, d, T):
    b = T == "Binary"; ft = model == "Feedthrough"; vi = 31 if b else 29
    avr, an, av = ("valueReferences", "nValueReferences", "values") if ver == 3 else ("vr", "nvr", "value")
    js = []
    ok = ("(VR[0] == %d%s)" % (vi, " || VR[0] == %d" % (vi + 1) if d == "Get" else "")) if ft else "0"
    req = ["IN.len <= 127 && (%s == NULL || %s == NULL%s || !%s)" % (avr, av, " || valueSizes == NULL" if b else "", ok)]
    ens = [("refused", "RETV == %s && MI->state == Terminated" % ERR[ver])]
    ex = ["  if (IN.nullvr) %s = NULL; if (IN.nullval) %s = NULL;%s" % (avr, av, " if (IN.nullsz) valueSizes = NULL;" if b else "")]
    can = [("novr", "IN.nullvr"), ("noval", "IN.nullval"), ("unknown", "!IN.nullvr && !IN.nullval")] + ([("nosizes", "IN.nullsz")] if b else [])
    js.append(mk(model, ver, d, T, 1, 1, "invalid", req, ens, can, extra=ex))
    js.append(mk(model, ver, d, T, 1, 1, "empty", ["1"], [("empty-request", "RETV == %s && MI->state == OLD.state" % OKS[ver])] + fr(model, ver), [("any", "1")], extra=ex + ["  %s = 0;" % an]))
    if ver == 3 and ft:
        js.append(mk(model, ver, d, T, 1, 2, "count", ["IN.len <= 127"], ens, [("known", "VR[0] == %d" % vi)]))
        js.append(mk(model, ver, d, T, 2, 1, "count2", ["IN.len <= 127"], ens, [("known", "VR[0] == %d" % vi)]))
    return js

def memory(ver, d, T):
    b = T == "Binary"
    avr, an, av = ("valueReferences", "nValueReferences", "values") if ver == 3 else ("vr", "nvr", "value")
    ens = [("data-valid", "valid_data(&MI->modelData)")]
    if ver == 3: js = [mk("Feedthrough", ver, d, T, 2, 1, "memory2-1", ["1"], ens, [("any", "1")], mem=True, kind="bounded")]
    else: js = [mk("Feedthrough", ver, d, T, 2, 2, "memory2-2", ["1"], ens, [("any", "1")], mem=True, kind="bounded")]
    ex = ["  if (IN.nullvr) %s = NULL; if (IN.nullval) %s = NULL;%s" % (avr, av, " if (IN.nullsz) valueSizes = NULL;" if b else "")]
    js.append(mk("Feedthrough", ver, d, T, 1, 1, "memory-null", ["1"], ens, [("any", "1")], mem=True, kind="bounded", extra=ex))
    if d == "Set" and b:   # any size: an oversized binary must not be read
        js.append(mk("Feedthrough", ver, d, T, 1, 1, "memory-size", ["1"], ens, [("huge", "IN.sz > 1000000")], mem=True, extra=["  __CPROVER_assume(IN.sz > 128); SZ[0] = IN.sz;"]))
    return js

VT = ((3, "String"), (3, "Binary"), (2, "String"))
def jobs(what):
    if what == "read": return [read(v, T) for v, T in VT]
    if what == "write": return [write(v, T) for v, T in VT]
    if what == "refused": return [refused(v, T) for v, T in VT]
    if what == "invalid": return sum([invalid(m, v, d, T) for v, T in VT for d in ("Get", "Set") for m in ("Feedthrough", "BouncingBall")], [])
    return sum([memory(v, d, T) for v, T in VT for d in ("Get", "Set")], [])
