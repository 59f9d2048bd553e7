"""C26: the model descriptions agree with the implementation.

The declarations are taken from the FMI2.xml / FMI3.xml of the working tree on every run; the FMU is
instantiated through its real functions with the declared token and read through its real getters."""
import re
import xml.etree.ElementTree as ET
from models import *
import c12

T3 = ("Float32", "Float64", "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Boolean", "String", "Binary", "Clock")
T2 = ("Real", "Integer", "Boolean", "String")
CT = {"Float32": "float", "Float64": "double", "Real": "double", "Integer": "int", "String": "const char *", "Boolean": {3: "_Bool", 2: "int"}, "Binary": "const unsigned char *", "Clock": "_Bool"}
def ctype(t, ver):
    c = CT.get(t) or t.lower() + "_t"
    return c[ver] if isinstance(c, dict) else c

class Var:
    pass

def describe(model, ver):
    root = ET.parse("%s/%s/FMI%d.xml" % (REPO, model, ver)).getroot()
    out = []
    for e in root.find("ModelVariables"):
        v = Var(); v.name = e.get("name"); v.vr = int(e.get("valueReference")); v.caus = e.get("causality") or "local"; v.init = e.get("initial"); v.dims = []
        x = e if ver == 3 else [c for c in e if c.tag in ("Real", "Integer", "Boolean", "String", "Enumeration")][0]
        v.type = {"Enumeration": "Int64" if ver == 3 else "Integer"}.get(x.tag, x.tag)
        s = x.get("start")
        v.start = None if s is None else [s] if v.type == "String" else s.split()
        for c in x:
            if c.tag == "Start": v.start = (v.start or []) + [c.get("value")]
            if c.tag == "Dimension": v.dims.append(c)
        v.nominal = float(x.get("nominal", "1")); v.der = x.get("derivative")
        out.append(v)
    by = {v.vr: v for v in out}
    for v in out:
        v.n = 1
        for d in v.dims: v.n *= int(d.get("start") or by[int(d.get("valueReference"))].start[0])
    ms = root.find("ModelStructure")
    if ver == 3:
        ders = [by[int(e.get("valueReference"))] for e in ms.findall("ContinuousStateDerivative")]
        states = [by[int(d.der)] for d in ders]
        nz = sum(by[int(e.get("valueReference"))].n for e in ms.findall("EventIndicator"))
    else:
        ders = [out[int(e.get("index")) - 1] for e in (ms.find("Derivatives") if ms.find("Derivatives") is not None else ())]
        states = [out[int(d.der) - 1] for d in ders]
        nz = int(root.get("numberOfEventIndicators") or 0)
    return out, states, nz

def lit(t, s):
    if t in ("Boolean", "Clock"): return "1" if s in ("true", "1") else "0"
    if t in ("Float32", "Float64", "Real"): return "((%s)%r)" % (ctype(t, 3), float(s))
    return "((%s)%dll)" % (ctype(t, 3), int(s)) if t != "UInt64" else "%dull" % int(s)

def make(model, ver):
    """C text creating an instance the way an importer does"""
    tok = c12.token(model, ver)
    if ver == 2:
        return ["  static fmi2CallbackFunctions CBS; fmi2CallbackFunctions cb = { (fmi2CallbackLogger)cb_logger, NULL, NULL, NULL, &g_env }; CBS = cb;",
                '  ModelInstance *M = fmi2Instantiate("a", fmi2ModelExchange, "%s", "f", &CBS, 0, 0);' % tok]
    if model == "Clocks": return ['  ModelInstance *M = fmi3InstantiateScheduledExecution("a", "%s", "f", 0, 0, &g_env, NULL, cb_cu, NULL, NULL);' % tok]
    return ['  ModelInstance *M = fmi3InstantiateModelExchange("a", "%s", "f", 0, 0, &g_env, NULL);' % tok]

def access(kind, t, ver, self, vr, n, val, siz):
    fn = "fmi%d%s%s" % (ver, kind, t)
    if ver == 2 or t == "Clock": return "%s(%s, %s, 1, %s)" % (fn, self, vr, val)
    if t == "Binary": return "%s(%s, %s, 1, %s, %s, %s)" % (fn, self, vr, siz, val, n)
    return "%s(%s, %s, 1, %s, %s)" % (fn, self, vr, val, n)

def read_job(model, ver, t, kind="Get"):
    vs, _, _ = describe(model, ver)
    mine = [v for v in vs if v.type == t]
    if model == "Resource": mine_read = [v for v in mine if v.start is not None or v.caus == "independent"]   # y is the content of a file: C24
    else: mine_read = [v for v in mine if t != "Clock" or v.caus == "output"]
    ct = ctype(t, ver)
    nmax = max([v.n for v in mine_read] + [1])
    fn = "fmi%d%s%s" % (ver, kind, t)
    pre, E = make(model, ver), [("created-with-declared-token", "MADE")]
    spec = c12.LIB + "static _Bool MADE; static %s BUF[%d]; static size_t SZ[2]; static unsigned VR[1];\n" % (ct, nmax)
    pre += ["  MADE = M != NULL;", "#ifndef REPLAY", "  __CPROVER_assert(M != NULL, \"ens:created-with-declared-token\"); __CPROVER_assume(M == &g_new); M = &g_new;", "#endif"]
    if ver == 2: pre += ["  fmi2EnterInitializationMode(M);"]
    if kind == "Get":
        for i, v in enumerate(mine_read):
            k = "%s_%d" % (re.sub(r"\W", "_", v.name), v.vr)
            spec += "static int st%d; static %s V%d[%d]; static size_t Z%d;\n" % (i, ct, i, v.n, i)
            pre += ["  { static unsigned r; r = %du; st%d = %s; }" % (v.vr, i, access("Get", t, ver, "M", "&r", v.n, "V%d" % i, "&Z%d" % i))]
            E.append(("readable:" + k, "st%d == 0" % i))
            exact = v.start is not None and (v.init == "exact" or v.init is None and v.caus in ("input", "parameter", "structuralParameter", "calculatedParameter", "local", "constant", "output"))
            if exact:
                s = v.start
                if t == "String":
                    b = s[0].encode()
                    E.append(("start:" + k, " && ".join(["V%d[0] != NULL" % i] + ["V%d[0][%d] == %d" % (i, j, c) for j, c in enumerate(b)] + ["V%d[0][%d] == 0" % (i, len(b))])))
                elif t == "Binary":
                    b = bytes.fromhex(s[0])
                    E.append(("start:" + k, " && ".join(["Z%d == %d" % (i, len(b))] + ["V%d[0][%d] == %d" % (i, j, c) for j, c in enumerate(b)])))
                else:
                    if len(s) != v.n: E.append(("number-of-start-values:" + k, "0"))
                    E += [("start:%s[%d]" % (k, j), "V%d[%d] == %s" % (i, j, lit(t, x))) for j, x in enumerate(s[:v.n])]
    p = protos(ver)[fn]
    names = [x[1] for x in p.params]
    pre += ["  %s = M; VR[0] = IN.vr; BUF[0] = %s; SZ[0] = %s;" % (names[0], '(void *)"a"' if t in ("String", "Binary") and kind == "Set" else "0", "1")]
    rest = ["VR", "1"] + (["SZ"] if t == "Binary" else []) + ["(void *)BUF"] + ([] if ver == 2 or t == "Clock" else ["1"])
    assert len(rest) == len(names) - 1, (fn, names)
    pre += ["  %s = %s;" % (n, r) for n, r in zip(names[1:], rest)]
    undeclared = " && ".join(["VR[0] != %du" % v.vr for v in mine] or ["1"])
    E.append(("undeclared-refused", "IMP(%s, RETV == %s)" % (undeclared, ERR[ver])))
    S = ["  g_log = 0; LIB0(-1);"]
    j = Job("%s%d.%s" % (model, ver, fn), fmu_unit(model, ver), Contract.of(p, requires=[], assigns=[], ensures=E), inputs="uint32_t vr;", decls=inst_decls(model, ver), spec_decls=spec, setup="\n".join(S), pre_call="\n".join(pre),
            canaries=[("refused", "RET == %s && (%s)" % (ERR[ver], undeclared))], unwind=130 if model == "Feedthrough" else 45, enforce=False)
    return no_file(j, model)

def no_file(j, model):
    if model == "Resource":
        j.removed = j.removed + ("calculateValues",)
        j.spec_decls += "\n#ifndef REPLAY\nStatus calculateValues(ModelInstance *comp) { int y; comp->modelData.y = y; return OK; }\n#endif\n"
    return j

def count_job(model, ver, what):
    """what: "x" continuous states (with their nominal values) or "z" event indicators"""
    vs, states, nz = describe(model, ver)
    n = sum(v.n for v in states) if what == "x" else nz
    pre = make(model, ver) + ["  MADE = M != NULL;", "#ifndef REPLAY", "  __CPROVER_assert(M != NULL, \"ens:created-with-declared-token\"); __CPROVER_assume(M == &g_new); M = &g_new;", "#endif"]
    E = [("created-with-declared-token", "MADE")]
    spec = c12.LIB + "static _Bool MADE; static size_t N; static int st, stn; static double BUF[%d], NOM[%d];\n" % (max(n, 1) + 1, max(n, 1))
    if ver == 3:
        pre.append("  N = 77; st = fmi3GetNumberOf%s(M, &N);" % ("ContinuousStates" if what == "x" else "EventIndicators"))
        E.append(("declared-number", "st == 0 && N == %d" % n))
    pre.append("  M->type = ModelExchange; M->state = ContinuousTimeMode;")
    if what == "x" and n:
        pre.append("  stn = fmi%dGetNominalsOfContinuousStates(M, NOM, %d);" % (ver, n))
        nom = [v.nominal for v in states for _ in range(v.n)]
        E.append(("nominals", " && ".join(["stn == 0"] + ["NOM[%d] == %r" % (i, x) for i, x in enumerate(nom)])))
    fn = "fmi%dGet%s" % (ver, "ContinuousStates" if what == "x" else "EventIndicators")
    p = protos(ver)[fn]; nm = [x[1] for x in p.params]
    pre.append("  __CPROVER_assume(IN.n != 0); %s = M; %s = BUF; %s = IN.same ? %d : IN.n;" % (nm[0], nm[1], nm[2], n))
    E.append(("only-declared-number", "(RETV == %s) == (%s == %d)" % ("fmi%dOK" % ver, nm[2], n)))
    S = ["  g_log = 0; LIB0(-1); __CPROVER_assume(IN.same <= 1);"]
    return no_file(Job("%s%d.%s" % (model, ver, fn), fmu_unit(model, ver), Contract.of(p, requires=[], assigns=[], ensures=E), inputs="uint8_t same; size_t n;", decls=inst_decls(model, ver), spec_decls=spec, setup="\n".join(S), pre_call="\n".join(pre),
               canaries=[("refused", "RET != fmi%dOK" % ver), ("accepted", "RET == fmi%dOK" % ver)], unwind=130 if model == "Feedthrough" else 45, enforce=False), model)

def jobs():
    out = []
    for v in (3, 2):
        for m, _ in units(v):
            for t in (T3 if v == 3 else T2):
                if t == "Clock" and m != "Clocks" and m != "BouncingBall": continue
                out.append(read_job(m, v, t))
                out.append(read_job(m, v, t, "Set")) if t != "Clock" else None
            if m != "Clocks": out += [count_job(m, v, "x"), count_job(m, v, "z")]
    return out

ASSUME = ["the declarations are read from the model descriptions of the working tree by the check (Python XML parser)",
          "the allocator and string functions are replaced by stand-ins over concrete blocks (as in C12)",
          "declared start values of variables with initial=\"approx\" are guesses and not compared",
          "input clocks are not readable",
          "in FMI 2.0 the values are read in initialization mode, the first mode in which reading is allowed",
          "the output of Resource, the content of a file, is left to C24; its calculateValues is replaced by its contract",
          "logError/logEvent bodies replaced by stubs that only count (their real bodies are verified by C23)"]
