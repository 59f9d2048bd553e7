"""Specification of the nine models: variables, equations, event rules (written from README/modelDescription, not from the code).

Every table entry is C text over `s`, a ModelInstance pointer; D(f) is a model variable."""
from fmu import *

CT = {"Float32": "float", "Float64": "double", "Int8": "int8_t", "UInt8": "uint8_t", "Int16": "int16_t", "UInt16": "uint16_t", "Int32": "int32_t",
      "UInt32": "uint32_t", "Int64": "int64_t", "UInt64": "uint64_t", "Boolean": "bool", "String": "const char *", "Binary": "const char *"}

ANY = "1"
FIXED = "!(s->type == ModelExchange && s->state != Instantiated && s->state != InitializationMode)"
DISC = "!(s->type == ModelExchange && s->state != Instantiated && s->state != InitializationMode && s->state != EventMode)"
INITIAL = "(s->state == Instantiated || s->state == InitializationMode)"
BBST = "(s->state == Instantiated || s->state == InitializationMode || s->state == ContinuousTimeMode || s->state == EventMode)"
CTEV = "(s->state == ContinuousTimeMode || s->state == EventMode)"
CONF = "(s->state == ConfigurationMode || s->state == ReconfigurationMode)"
T0 = (0, "s->time")

def io(vr, f): return [(vr, "D(%s_input)" % f), (vr + 1, "D(%s_output)" % f)]
_FT_NUM = {"Int8": 11, "UInt8": 13, "Int16": 15, "UInt16": 17, "Int32": 19, "UInt32": 21, "Int64": 23, "UInt64": 25, "Boolean": 27}
ENUMOK = "(v == 1 || v == 2)"

# get: type -> [(vr, expr) | (vr, count, element expr in k)];  set: type -> [(vr, lvalue (k), mode condition, value condition in v[, count])]
SPEC = {
 "Dahlquist": dict(calc="D(der_x) = -D(k) * D(x);", derived=["der_x"], states=["x"], ders=["der_x"], nominals=["1.0"], ind=[],
   get={"Float64": [T0, (1, "D(x)"), (2, "D(der_x)"), (3, "D(k)")]},
   set={"Float64": [(1, "D(x)", ANY, "1"), (3, "D(k)", FIXED, "1")]},
   start={"x": "1.0", "k": "1.0"}),
 "VanDerPol": dict(calc="D(der_x0) = D(x1); D(der_x1) = D(mu) * ((1.0 - D(x0) * D(x0)) * D(x1)) - D(x0);", derived=["der_x0", "der_x1"], states=["x0", "x1"], ders=["der_x0", "der_x1"],
   nominals=["1.0", "1.0"], ind=[],
   get={"Float64": [T0, (1, "D(x0)"), (2, "D(der_x0)"), (3, "D(x1)"), (4, "D(der_x1)"), (5, "D(mu)")]},
   set={"Float64": [(1, "D(x0)", ANY, "1"), (3, "D(x1)", ANY, "1"), (5, "D(mu)", DISC, "1")]},
   start={"x0": "2.0", "x1": "0.0", "mu": "1.0"}),
 "BouncingBall": dict(calc="", derived=[], states=["h", "v"], ders=["v", "g"], nominals=["1.0", "1.0"], ind=["(D(h) > -1e-10 && D(h) <= 0 && D(v) > 0) ? -1e-10 : D(h)"],
   get={"Float64": [T0, (1, "D(h)"), (2, "D(v)"), (3, "D(v)"), (4, "D(g)"), (5, "D(g)"), (6, "D(e)"), (7, "0.1")]},
   set={"Float64": [(1, "D(h)", BBST, "1"), (3, "D(v)", BBST, "1"), (5, "D(g)", FIXED, "1"), (6, "D(e)", DISC, "1")]},
   start={"h": "1.0", "v": "0.0", "g": "-9.81", "e": "0.7"}),
 "Stair": dict(calc="", derived=[], states=[], ders=[], nominals=[], ind=[],
   get={"Float64": [T0], "Int32": [(1, "D(counter)")]},
   set={"Int32": [(1, "D(counter)", INITIAL, "v < 10")]},
   start={"counter": "1"}),
 "Resource": dict(calc="", derived=["y"], states=[], ders=[], nominals=[], ind=[],
   get={"Float64": [T0], "Int32": [(1, "D(y)")]}, set={}, start={}),
 "Roberts": dict(calc="if (!D(dae)) D(y3) = 1.0 - D(y1) - D(y2); D(der_y1) = (-0.04) * D(y1) + 1e4 * D(y2) * D(y3); D(der_y2) = 0.04 * D(y1) - 1e4 * D(y2) * D(y3) - 3e7 * D(y2) * D(y2);"
   " D(r) = D(y1) + D(y2) + D(y3) - 1.0; D(g1) = D(y1) - 0.0001; D(g2) = D(y3) - 0.01;",
   derived=["der_y1", "der_y2", "r", "g1", "g2"], states=["y1", "y2"], ders=["der_y1", "der_y2"], nominals=["1e-4", "1e-2"], ind=["D(g1)", "D(g2)"],
   get={"Float64": [T0, (2, "D(y1)"), (3, "D(der_y1)"), (4, "D(y2)"), (5, "D(der_y2)"), (6, "D(y3)"), (7, "1e-2"), (8, "D(r)"), (9, "D(g1)"), (10, "D(g2)")], "Boolean": [(1, "D(dae)")]},
   set={"Float64": [(2, "D(y1)", ANY, "1"), (4, "D(y2)", ANY, "1"), (6, "D(y3)", ANY, "1")], "Boolean": [(1, "D(dae)", ANY, "1")]},
   start={"y1": "1.0", "y2": "0.0", "y3": "0.0", "dae": "0"}),
 "StateSpace": dict(
   calc="for (size_t i = 0; i < D(n) && i < 5; i++) { D(der_x)[i] = 0; for (size_t j = 0; j < D(n) && j < 5; j++) D(der_x)[i] += D(A)[i][j] * D(x)[j]; for (size_t j = 0; j < D(m) && j < 5; j++) D(der_x)[i] += D(B)[i][j] * D(u)[j]; }"
   " for (size_t i = 0; i < D(r) && i < 5; i++) { D(y)[i] = 0; for (size_t j = 0; j < D(n) && j < 5; j++) D(y)[i] += D(C)[i][j] * D(x)[j]; for (size_t j = 0; j < D(m) && j < 5; j++) D(y)[i] += D(D)[i][j] * D(u)[j]; }",
   derived=["y", "der_x"], states=["x"], ders=["der_x"], nominals=["1.0"] * 5, ind=[],
   get={"Float64": [T0, (4, "D(n) * D(n)", "D(A)[k / D(n)][k % D(n)]"), (5, "D(n) * D(m)", "D(B)[k / D(m)][k % D(m)]"), (6, "D(r) * D(n)", "D(C)[k / D(n)][k % D(n)]"),
                    (7, "D(r) * D(m)", "D(D)[k / D(m)][k % D(m)]"), (8, "D(n)", "D(x0)[k]"), (9, "D(m)", "D(u)[k]"), (10, "D(r)", "D(y)[k]"), (11, "D(n)", "D(x)[k]"), (12, "D(n)", "D(der_x)[k]")],
        "UInt64": [(1, "D(m)"), (2, "D(n)"), (3, "D(r)")]},
   set={"Float64": [(4, "D(A)[k / D(n)][k % D(n)]", ANY, "1", "D(n) * D(n)"), (5, "D(B)[k / D(m)][k % D(m)]", ANY, "1", "D(n) * D(m)"), (6, "D(C)[k / D(n)][k % D(n)]", ANY, "1", "D(r) * D(n)"),
                    (7, "D(D)[k / D(m)][k % D(m)]", ANY, "1", "D(r) * D(m)"), (8, "D(x0)[k]", ANY, "1", "D(n)"), (9, "D(u)[k]", ANY, "1", "D(m)"), (11, "D(x)[k]", CTEV, "1", "D(n)")],
        "UInt64": [(1, "D(m)", CONF, "v <= 5"), (2, "D(n)", CONF, "v <= 5"), (3, "D(r)", CONF, "v <= 5")]},
   start=None),
 "Clocks": dict(calc="", derived=[], states=[], ders=[], nominals=[], ind=[],
   get={"Float64": [T0], "Int32": [(2001, "D(inClock1Ticks)"), (2002, "D(inClock2Ticks)"), (2003, "D(inClock3Ticks)"), (2004, "D(totalInClockTicks)"), (2005, "D(result2)"), (2006, "D(input2)"), (2007, "D(output3)")]},
   set={"Int32": [(2006, "D(input2)", ANY, "1")]},
   start={"inClock3_interval": "0.0", "inClock3_qualifier": "0", "outClock": "0", "inClock1Ticks": "0", "inClock2Ticks": "0", "inClock3Ticks": "0", "totalInClockTicks": "0", "result2": "0", "input2": "0", "output3": "0"}),
 "Feedthrough": dict(
   calc=None, derived=[], states=[], ders=[], nominals=[], ind=[],
   get=dict([(t, io(v, t)) for t, v in _FT_NUM.items()] + [
        ("Float32", [(1, "D(Float32_continuous_input)"), (2, "D(Float32_continuous_output)"), (3, "D(Float32_discrete_input)"), (4, "D(Float32_discrete_output)")]),
        ("Float64", [T0, (5, "D(Float64_fixed_parameter)"), (6, "D(Float64_tunable_parameter)"), (7, "D(Float64_continuous_input)"), (8, "D(Float64_continuous_output)"), (9, "D(Float64_discrete_input)"), (10, "D(Float64_discrete_output)")]),
        ("String", [(29, "D(String_input)"), (30, "D(String_output)")]), ("Binary", [(31, "D(Binary_input)"), (32, "D(Binary_output)")])]),
   set=dict([(t, [(v, "D(%s_input)" % t, ANY, "1")]) for t, v in _FT_NUM.items()] + [
        ("Float32", [(1, "D(Float32_continuous_input)", ANY, "1"), (3, "D(Float32_discrete_input)", DISC, "1")]),
        ("Float64", [(5, "D(Float64_fixed_parameter)", FIXED, "1"), (6, "D(Float64_tunable_parameter)", DISC, "1"), (7, "D(Float64_continuous_input)", ANY, "1"), (9, "D(Float64_discrete_input)", DISC, "1")]),
        ("String", [(29, "D(String_input)", ANY, "1")]), ("Binary", [(31, "D(Binary_input)", ANY, "1")])]),
   start=dict([("%s_%s" % (t, x), "0") for t in _FT_NUM for x in ("input", "output")] + [("%s_%s_%s" % (t, k, x), "0") for t in ("Float32", "Float64") for k in ("continuous", "discrete") for x in ("input", "output")] +
        [("Float64_fixed_parameter", "0.0"), ("Float64_tunable_parameter", "0.0"), ("Enumeration_input", "1"), ("Enumeration_output", "1")])),
}
# outputs equal inputs
_ft = SPEC["Feedthrough"]
_pairs = [("%s_input" % t, "%s_output" % t) for t in list(_FT_NUM) + ["Enumeration"]] + [("%s_%s_input" % (t, k), "%s_%s_output" % (t, k)) for t in ("Float32", "Float64") for k in ("continuous", "discrete")]
_ft["calc"] = " ".join("D(%s) = D(%s);" % (o, i) for i, o in _pairs) + " D(Binary_output_size) = D(Binary_input_size);"
_ft["derived"] = [o for i, o in _pairs] + ["String_output", "Binary_output", "Binary_output_size"]
ENUM_T = {2: "Int32", 3: "Int64"}

def gets(model, ver):
    g = {t: [(e[0], "1", e[1]) if len(e) == 2 else e for e in l] for t, l in SPEC[model]["get"].items()}
    if model == "Feedthrough":
        t = ENUM_T[ver]; g[t] = g[t] + [(33, "1", "D(Enumeration_input)"), (34, "1", "D(Enumeration_output)")]
    return g
def sets(model, ver):
    g = {t: [e + ("1",) if len(e) == 4 else e for e in l] for t, l in SPEC[model]["set"].items()}
    if model == "Feedthrough":
        t = ENUM_T[ver]; g[t] = g[t] + [(33, "D(Enumeration_input)", ANY, ENUMOK, "1")]
    return g

def base_fields(model, ver):
    return [f for f in data_fields(model, ver) if f[1] not in SPEC[model]["derived"]]

def base_expr(model, ver, a, b):
    bf = base_fields(model, ver)
    if model == "Roberts":
        return same_fields([f for f in bf if f[1] != "y3"], a, b) + " && IMP(%sdae, DEQ(%sy3, %sy3))" % (b, a, b)
    return same_fields(bf, a, b) or "1"

def spec_decls(model, ver, types=None):
    """C text of the specification functions for the given types"""
    L = ["#define D(f) (s->modelData.f)",
         "static inline void spec_calc(ModelInstance *s) { %s (void)s; }" % SPEC[model]["calc"]]
    b = base_expr(model, ver, "a->modelData.", "b->modelData.")
    L.append("static inline _Bool same_base(const ModelInstance *a, const ModelInstance *b) { return %s; }" % (b or "1"))
    L.append("static inline _Bool same_but_data(const ModelInstance *a, const ModelInstance *b) { return same_id(a, b) && same_log(a, b) && same_flags(a, b) && same_limits(a, b) && same_time(a, b) && same_comm(a, b) && same_steps(a, b) && same_evt(a, b); }")
    for t in (types if types is not None else CT):
        if t in ("String", "Binary"): continue
        g, st = gets(model, ver).get(t, []), sets(model, ver).get(t, [])
        c = CT[t]
        L.append("static inline long spec_count_%s(const ModelInstance *s, uint32_t vr) { (void)s; switch (vr) { %s default: return -1; } }" % (t, " ".join("case %d: return (long)(%s);" % (v, n) for v, n, e in g)))
        L.append("static inline %s spec_get_%s(const ModelInstance *s, uint32_t vr, size_t k) { (void)s; (void)k; switch (vr) { %s default: return 0; } }" % (c, t, " ".join("case %d: return (%s)(%s);" % (v, c, e) for v, n, e in g)))
        L.append("static inline long spec_wcount_%s(const ModelInstance *s, uint32_t vr) { (void)s; switch (vr) { %s default: return -1; } }" % (t, " ".join("case %d: return (long)(%s);" % (e[0], e[4]) for e in st)))
        L.append("static inline _Bool spec_mode_%s(const ModelInstance *s, uint32_t vr) { (void)s; switch (vr) { %s default: return 0; } }" % (t, " ".join("case %d: return %s;" % (e[0], e[2]) for e in st)))
        L.append("static inline _Bool spec_valok_%s(uint32_t vr, %s v) { (void)v; switch (vr) { %s default: return 1; } }" % (t, c, " ".join("case %d: return %s;" % (e[0], e[3]) for e in st if e[3] != "1")))
        L.append("static inline void spec_put_%s(ModelInstance *s, uint32_t vr, size_t k, %s v) { (void)s; (void)k; (void)v; switch (vr) { %s default: break; } }" % (t, c, " ".join("case %d: %s = v; break;" % (e[0], e[1]) for e in st)))
    return "\n".join(L)

def derived_fields(model, ver, strings=False):
    skip = () if strings else ("String_output", "Binary_output")
    return [f for f in data_fields(model, ver) if (f[1] in SPEC[model]["derived"] and f[1] not in skip)]

def calc_assigns(model, ver):
    return ["comp->isDirtyValues"] + ["comp->modelData." + f if not d else "__CPROVER_object_upto(comp->modelData.%s, sizeof(comp->modelData.%s))" % (f, f)
        for t, f, d in data_fields(model, ver) if f in SPEC[model]["derived"] or (model == "Roberts" and f == "y3")]

def calc_frame(model, ver=3):
    """frame contract of calculateValues: only calculated variables and the dirty flag change (discharged by C18, for Resource by C24)"""
    ok = "__CPROVER_return_value == OK && !comp->isDirtyValues"
    if model == "Resource": ok = "(%s) || (__CPROVER_return_value == Error && comp->isDirtyValues == __CPROVER_old(comp->isDirtyValues) && comp->modelData.y == __CPROVER_old(comp->modelData.y))" % ok
    if model in ("Stair", "Clocks"): return None
    return Contract("Status", "calculateValues", [("ModelInstance *", "comp", "")], requires=["comp == g_inst"], assigns=calc_assigns(model, ver), ensures=[("ok", ok), ("valid", "valid_data(&comp->modelData)")])

def calc_abs(model, ver=3):
    """contract of calculateValues for readers: the calculated variables take the values CALC that the model equations give for the
    settable variables of OLD (which the caller must not have changed); C18 proves that these are the model equations"""
    c = calc_frame(model, ver)
    if c is None: return None
    if model == "Resource": return c
    c.requires = ["comp == g_inst && same_base(comp, &OLD) && same_time(comp, &OLD)"]
    e = same_fields(derived_fields(model, ver), "comp->modelData.", "CALC.")
    if model == "Roberts": e += " && (comp->modelData.dae ? DEQ(comp->modelData.y3, OLD.modelData.y3) : DEQ(comp->modelData.y3, CALC.y3))"
    c.ensures.append(("equations", e))
    return c

def calc_abs_decl(model, ver):
    L = ["static ModelData CALC;", "#ifdef REPLAY", "#define want_calc(s) spec_calc(s)", "#else", "static inline void want_calc(ModelInstance *s) {"]
    if model not in ("Resource",):
        for t, f, d in derived_fields(model, ver):
            for i in idx(d): L.append("  s->modelData.%s%s = CALC.%s%s;" % (f, i, f, i))
    if model == "Roberts": L.append("  if (!s->modelData.dae) s->modelData.y3 = CALC.y3;")
    L += ["  (void)s; }", "#endif"]
    return "\n".join(L)

def calc_mem_stub(model, ver):
    """calculateValues for the memory-safety jobs: keeps the data valid, clears the dirty flag (array-valued calculated variables keep
    their - arbitrary - contents)"""
    if model in ("Stair", "Clocks"): return ""
    L = ["#ifndef REPLAY", "uint8_t nondet_u8(void); int nondet_int(void);", "Status calculateValues(ModelInstance *comp) {", "  __CPROVER_assert(comp == g_inst, \"ens:calculateValues-precondition\");"]
    if model == "Resource": L += ["  if (nondet_u8()) return Error;", "  comp->modelData.y = nondet_int();"]
    else: L += ["  comp->modelData.%s = CALC.%s;" % (f, f) for t, f, d in derived_fields(model, ver) if not d]
    L += ["  comp->isDirtyValues = false; return OK; }", "#endif"]
    return "\n".join(L)

def calc_stub(model, ver, abs=True):
    """the contract of calculateValues expanded by hand into a loop-free body (assert requires; assign exactly the ensured values);
    the same contract is discharged against the real function by C18 (Resource: C24)"""
    if model in ("Stair", "Clocks"): return ""
    L = ["#ifndef REPLAY", "uint8_t nondet_u8(void); int nondet_int(void);", "Status calculateValues(ModelInstance *comp) {"]
    if model == "Resource":
        L += ["  __CPROVER_assert(comp == g_inst, \"ens:calculateValues-precondition\");", "  if (nondet_u8()) return Error;", "  comp->modelData.y = nondet_int();"]
    else:
        L += ["  __CPROVER_assert(comp == g_inst && %s && DEQ(comp->time, OLD.time), \"ens:calculateValues-precondition\");" % base_expr(model, ver, "comp->modelData.", "OLD.modelData."), "  want_calc(comp);"]
    L += ["  comp->isDirtyValues = false; return OK; }", "#endif"]
    return "\n".join(L)
