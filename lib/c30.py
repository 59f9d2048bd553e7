"""C30 call-log buffer, C31 paths, C33 importer instances and allocation helpers (src/FMI.c)."""
from imp import *
import c27

DEFS = ["-Dstrlen=vf_strlen", "-Drealloc=vf_realloc", "-Dcalloc=vf_calloc", "-Dmalloc=vf_malloc", "-Dfree=vf_free", "-Dstrdup=vf_strdup", "-Dvsnprintf=vf_vsnprintf", "-Ddlopen=vf_dlopen", "-Ddlclose=vf_dlclose"]
UNIT = Unit("fmic", [REPO + "/src/FMI.c"], DEFS + ["-I%s/include" % REPO, "-w", "-include", VERIF + "/spec/fmicshim.h"], ['#include "FMI.h"'])

# printf stand-in: strings and hexadecimal digits as in the standard, every other number as a short text that identifies its value
PRINTF = r"""
static int slen(const char *s) { int k = 0; while (s[k]) k++; return k; }
#ifndef SLEN
#define SLEN slen
#endif
#ifdef REPLAY
#define DARG(ap) va_arg(ap, double)
#else
#define DARG(ap) (__CPROVER_OBJECT_SIZE(*(void **)ap) == 4 ? (double)va_arg(ap, float) : va_arg(ap, double))
#endif
static void tok(uint64_t v, char *t) { v ^= v >> 32; v ^= v >> 16; v ^= v >> 8; t[0] = (char)('A' + (v & 15)); t[1] = (char)('A' + ((v >> 4) & 15)); t[2] = 0; }
static int nprint; static _Bool over;
static int fmt_to(char *b, size_t n, const char *f, va_list ap) {
  size_t o = 0; nprint++; __CPROVER_assert(nprint <= LIMIT, "ens:terminates"); __CPROVER_assume(nprint <= LIMIT);
  for (int i = 0; f[i]; i++) {
    char t[4]; const char *s = t; int len = 1; t[0] = f[i];
    if (f[i] == '%') { _Bool zero = 0; int w = 0, l = 0, h = 0; i++;
      if (f[i] != '%') {
        if (f[i] == '0') { zero = 1; i++; }
        while (f[i] >= '0' && f[i] <= '9') { w = f[i] - '0'; i++; }
        if (f[i] == '.') { i++; while (f[i] >= '0' && f[i] <= '9') i++; }
        while (f[i] == 'l' || f[i] == 'z' || f[i] == 'h' || f[i] == 'j') { if (f[i] == 'h') h++; else l++; i++; }
        char c = f[i];
        if (c == 's') { s = va_arg(ap, const char *); len = SLEN(s); }
        else if (c == 'g' || c == 'f' || c == 'e') { union { double d; uint64_t u; } x; x.d = DARG(ap); if (x.d != x.d) x.u = 0x7ff8u; tok(x.u, t); len = 2; }
        else if (c == 'd' || c == 'i') { int64_t v = l ? (int64_t)va_arg(ap, long) : (int64_t)va_arg(ap, int); if (h == 1) v = (int16_t)v; if (h == 2) v = (int8_t)v; tok((uint64_t)v, t); len = 2; }
        else if (c == 'u') { uint64_t v = l ? (uint64_t)va_arg(ap, unsigned long) : (uint64_t)va_arg(ap, unsigned); if (h == 1) v = (uint16_t)v; if (h == 2) v = (uint8_t)v; tok(v, t); len = 2; }
        else if (c == 'x' || c == 'X') { unsigned v = va_arg(ap, unsigned); if (h == 1) v &= 0xffffu; if (h == 2) v &= 0xffu; const char *d = c == 'x' ? "0123456789abcdef" : "0123456789ABCDEF";
          if (v > 0xffu || (v < 16u && w < 2)) over = 1; /* not two digits */
          t[0] = v < 16u ? (zero ? '0' : ' ') : d[(v >> 4) & 15u]; t[1] = d[v & 15u]; len = 2; }
        else over = 1;
      } }
    for (int k = 0; k < len; k++) { if (o + 1 < n) PUT(b, o, s[k]); o++; }
  }
  if (n > 0) PUT(b, o < n ? o : n - 1, 0);
  return (int)o; }
int vf_snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = fmt_to(b, n, f, ap); va_end(ap); return r; }
int vf_sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = fmt_to(b, 64, f, ap); va_end(ap); return r; }
"""
REST = r"""
static void cb_err(const char *m, va_list a) { (void)m; (void)a; nerr++; }
#ifdef REPLAY
static int g_nothing;
#endif
"""
NOALLOC = "void *vf_calloc(size_t a, size_t b) { (void)a; (void)b; return NULL; } void *vf_malloc(size_t a) { (void)a; return NULL; } void vf_free(void *p) { (void)p; } char *vf_strdup(const char *s) { (void)s; return NULL; }\n"
STRLEN = "size_t vf_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }\n"
NODL = "void *vf_dlopen(const char *p, int f) { (void)p; (void)f; return NULL; } int vf_dlclose(void *h) { (void)h; return 0; }\n"
# log buffer of B bytes that can be moved to a larger one; CUR is the real size of the current buffer
BUF = r"""
static FMIInstance II; static char LB0[%(B)d], BIG[%(G)d]; static size_t CUR; static _Bool fit, moved; static int nerr; static char X[40]; static size_t XL;
#define PUT(b, o, c) do { if (!in_buf(&(b)[o])) fit = 0; else (b)[o] = (c); } while (0)
static _Bool in_buf(char *p) { return moved ? (p >= BIG && p < BIG + CUR) : (p >= LB0 && p < LB0 + CUR); }
void *vf_realloc(void *p, size_t n) { if (p != (void *)(moved ? BIG : LB0)) fit = 0; if (IN.nomem) return NULL; if (n > %(G)d) { fit = 0; return NULL; } if (!moved) for (int i = 0; i < %(B)d; i++) BIG[i] = LB0[i]; moved = 1; CUR = n; return BIG; }
static void mk_buf(void) { II.logMessageBuffer = LB0; II.logMessageBufferSize = %(B)d; II.logMessageBufferPosition = IN.pos; for (int i = 0; i < %(B)d; i++) LB0[i] = i < (int)IN.pos ? 'p' : i == (int)IN.pos ? 0 : IN.junk; CUR = %(B)d; fit = 1; moved = 0; nerr = 0; nprint = 0; over = 0; logErrorMessage = cb_err; }
static _Bool text_is(void) { char *b = II.logMessageBuffer; if (b != (moved ? BIG : LB0)) return 0; if (IN.pos + XL >= CUR) return 0; for (int i = 0; i < %(B)d; i++) if (i < (int)IN.pos && b[i] != 'p') return 0; for (int i = 0; i < 40; i++) if (i < (int)XL && b[IN.pos + i] != X[i]) return 0; return b[IN.pos + XL] == 0; }
static _Bool sane(void) { char *b = II.logMessageBuffer; if (b != (moved ? BIG : LB0) || II.logMessageBufferSize != CUR || II.logMessageBufferPosition >= CUR) return 0; for (int i = 0; i < %(B)d; i++) if (i < (int)IN.pos && b[i] != 'p') return 0; for (int i = 0; i < %(G)d; i++) { if (i >= (int)CUR) return 0; if (!b[i]) return 1; } return 0; }
"""
VPRINT = "int vf_vsnprintf(char *b, size_t n, const char *f, va_list ap) { (void)ap; nprint++; if (f != FMT) fit = 0; size_t o = 0; for (int k = 0; k < 40; k++) { if (k >= (int)XL) break; if (o + 1 < n) PUT(b, o, X[k]); o++; } if (n > 0) PUT(b, o < n ? o : n - 1, 0); return (int)o; }\n"
def buf(B, G): return BUF % {"B": B, "G": G}

def append_job(B=8, maxlen=20):
    G = 64
    sp = "#define LIMIT 50\nstatic char FMT[4];\n" + "static int nprint; static _Bool over;\nstatic void cb_err(const char *m, va_list a);\n" + buf(B, G) + VPRINT + REST + NOALLOC + NODL + STRLEN + "int vf_snprintf(char *b, size_t n, const char *f, ...) { (void)b; (void)n; (void)f; fit = 0; return 0; } int vf_sprintf(char *b, const char *f, ...) { (void)b; (void)f; fit = 0; return 0; }\n"
    S = ["  __CPROVER_assume(IN.pos < %d && IN.len <= %d && IN.nomem <= 1 && IN.junk != 0); mk_buf(); XL = IN.len; for (int i = 0; i < %d; i++) X[i] = i < (int)IN.len ? 'x' : 0; for (int i = 0; i < 3; i++) FMT[i] = 'f'; FMT[3] = 0; instance = &II; format = FMT;" % (B, maxlen, maxlen + 1)]
    grown = "(IN.pos + IN.len >= %d)" % B
    E = [("nothing-outside", "fit"), ("complete-text", "IMP(!%s || !IN.nomem, text_is() && II.logMessageBufferPosition == IN.pos + IN.len && II.logMessageBufferSize == CUR)" % grown), ("consistent", "sane()"), ("fits-without-growing", "IMP(!%s, 1)" % grown)]
    j = Job("FMIAppendToLogMessageBuffer.%d" % B, UNIT, Contract("void", "FMIAppendToLogMessageBuffer", [("FMIInstance *", "instance", ""), ("const char *", "format", "")], requires=["instance != NULL"], ensures=E[:3]), inputs="size_t pos, len; uint8_t nomem; char junk;", spec_decls=sp, setup="\n".join(S),
            canaries=[("grown", "moved"), ("kept", "!moved"), ("failed", "%s && IN.nomem" % grown), ("exact", "IN.pos + IN.len == %d" % B)], unwind=G + 2, enforce=False, removed=(), mem=True, kind="bounded", timeout=200)
    j.bound = "buffer of %d bytes, text of at most %d characters" % (B, maxlen)
    return j

TYPES = [("FMIFloat32Type", "float"), ("FMIFloat64Type", "double"), ("FMIInt8Type", "int8_t"), ("FMIUInt8Type", "uint8_t"), ("FMIInt16Type", "int16_t"), ("FMIUInt16Type", "uint16_t"), ("FMIInt32Type", "int32_t"), ("FMIUInt32Type", "uint32_t"),
         ("FMIInt64Type", "int64_t"), ("FMIUInt64Type", "uint64_t"), ("FMIClockType", "bool"), ("FMIValueReferenceType", "unsigned"), ("FMISizeTType", "size_t"), ("FMIBooleanType", "bool"), ("FMIBooleanType", "int"), ("FMIStringType", "str"), ("FMIBinaryType", "bin")]
def array_job(vt, ct, n, pos, B=8, nomem=0, sz=(2, 1, 0)):
    """n elements appended to a buffer of B bytes filled up to pos; numbers have two characters, strings four, binaries 2 + 2 * sz"""
    G = 64
    sp = "#define LIMIT 36\nstatic void cb_err(const char *m, va_list a);\nstatic int nerr;\n" + "static int nprint; static _Bool over;\n" + buf(B, G).replace("static int nerr;", "") + PRINTF.replace("static int nprint; static _Bool over;\n", "") + REST + NOALLOC + NODL + STRLEN + "int vf_vsnprintf(char *b, size_t n, const char *f, va_list ap) { fit = 0; return 0; }\n"
    sp += "static void xs(const char *s) { for (int i = 0; s[i]; i++) X[XL++] = s[i]; X[XL] = 0; }\n"
    inputs = "size_t pos; uint8_t nomem; char junk;"
    S = ["  __CPROVER_assume(IN.junk != 0); IN.pos = %d; IN.nomem = %d; mk_buf(); XL = 0; X[0] = 0; instance = &II; nValues = %d; sizes = NULL; variableType = %s;" % (pos, nomem, n, vt)]
    m = max(n, 1); X = 0
    if ct == "str":
        sp = "#define SLEN(s) 2\nstatic char SV[%d][4]; static const char *VV[%d];\n" % (m, m) + sp; inputs += " char sv[%d][3];" % m; X = 4 * n
        for i in range(n): S.append("  for (int k = 0; k < 2; k++) { __CPROVER_assume(IN.sv[%d][k] != 0); SV[%d][k] = IN.sv[%d][k]; X[XL + 1 + k] = IN.sv[%d][k]; } SV[%d][2] = 0; VV[%d] = SV[%d]; X[XL] = X[XL + 3] = '\"'; XL += 4; X[XL] = 0;%s" % (i, i, i, i, i, i, i, ' xs(", ");' if i + 1 < n else ""))
    elif ct == "bin":
        sp += "static unsigned char SV[%d][2]; static const unsigned char *VV[%d]; static size_t SZ[%d];\n" % (m, m, m); inputs += " unsigned char sv[%d][2];" % m
        S.append("  sizes = SZ;"); X = sum(2 + 2 * sz[i] for i in range(n))
        for i in range(n): S.append("  SZ[%d] = %d; VV[%d] = SV[%d]; xs(\"0x\"); for (int k = 0; k < %d; k++) { SV[%d][k] = IN.sv[%d][k]; X[XL++] = \"0123456789abcdef\"[SV[%d][k] >> 4]; X[XL++] = \"0123456789abcdef\"[SV[%d][k] & 15]; X[XL] = 0; }%s" % (i, sz[i], i, i, sz[i], i, i, i, i, ' xs(", ");' if i + 1 < n else ""))
    else:
        sp += "static %s VV[%d];\n" % (ct, m); inputs += " %s v[%d];" % ("uint8_t" if ct == "bool" else ct, m); X = 2 * n
        if vt == "FMIBooleanType": S.append("  II.fmiMajorVersion = FMIMajorVersion%d;" % (3 if ct == "bool" else 2))
        for i in range(n):
            if ct == "bool": S.append("  __CPROVER_assume(IN.v[%d] <= 1);" % i)
            bits = "({ union { double d; uint64_t u; } x; x.d = (double)VV[%d]; x.d != x.d ? (uint64_t)0x7ff8u : x.u; })" % i if ct in ("float", "double") else "(uint64_t)(int64_t)VV[%d]" % i if ct.startswith("int") else "(uint64_t)VV[%d]" % i
            S.append("  VV[%d] = IN.v[%d]; { char t[6]; tok(%s, t); X[XL] = t[0]; X[XL + 1] = t[1]; XL += 2; X[XL] = 0;%s }" % (i, i, bits, ' xs(", ");' if i + 1 < n else ""))
    S.append("  values = VV;")
    E = [("nothing-outside", "fit && !over")]
    if not nomem: E += [("complete-text", "text_is() && II.logMessageBufferPosition == IN.pos + XL && II.logMessageBufferSize == CUR")]
    E += [("consistent", "sane()")]
    p = Proto("void", "FMIAppendArrayToLogMessageBuffer", [("FMIInstance *", "instance", ""), ("const void *", "values", ""), ("size_t", "nValues", ""), ("const size_t *", "sizes", ""), ("FMIVariableType", "variableType", "")])
    j = Job("FMIAppendArrayToLogMessageBuffer.%s.%s.%d.at%d%s" % (vt, ct, n, pos, ".nomem" if nomem else ""), UNIT, Contract.of(p, requires=["instance != NULL"], ensures=E), inputs=inputs, spec_decls=sp, setup="\n".join(S), canaries=[("returned", "1")],
            unwind=G + 2, unwindset=[], enforce=False, removed=(), mem=True, kind="bounded", timeout=100)
    j.bound = "%d element(s), buffer of %d bytes filled up to %d" % (n, B, pos)
    return j

def jobs30():
    out = [append_job(8, 20), append_job(1, 5)]
    thorough = os.environ.get("VERIF_TIER", "quick") != "quick"
    for vt, ct in TYPES:
        for pos in range(8):
            if thorough or ct in ("double", "str", "bin") or pos in (0, 3, 5, 7): out.append(array_job(vt, ct, 2, pos))
        if thorough or ct in ("double", "str", "bin"):
            out += [array_job(vt, ct, n, pos) for n in (0, 1) for pos in (0, 3, 7)] + [array_job(vt, ct, 3, 2), array_job(vt, ct, 2, 0, nomem=1), array_job(vt, ct, 2, 6, nomem=1)]
    return out + c27.text_jobs()

# ---------------------------------------------------------------- C31
SIMPLE = "#define LIMIT 50\n#define PUT(b, o, c) ((b)[o] = (c))\nstatic int nerr;\n" + PRINTF + REST + NOALLOC + NODL + STRLEN + "void *vf_realloc(void *p, size_t n) { (void)p; (void)n; return NULL; } int vf_vsnprintf(char *b, size_t n, const char *f, va_list ap) { (void)b; (void)n; (void)f; return 0; }\n"
def uri_job(shape, size=None):
    """shape: list of byte values, None for any byte"""
    n = len(shape)
    sp = SIMPLE.replace(STRLEN, "") + "static char PATH[8]; size_t vf_strlen(const char *s) { if (s == PATH) return %d; size_t n = 0; while (s[n]) n++; return n; }\n" % n + """static char PATH[8], URI[40], X[40]; static int XL;
static _Bool legal(char c) { if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')) return 1; const char *l = "-._~:/?#[]@!$&'()*+,;="; for (int i = 0; l[i]; i++) if (l[i] == c) return 1; return 0; }
static int uphex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static _Bool uri_is(void) { int o = 7; for (int i = 0; i < 7; i++) if (URI[i] != "file://"[i]) return 0; for (int i = 0; i < %d; i++) { if (legal(PATH[i])) { if (URI[o] != PATH[i]) return 0; o++; } else { if (URI[o] != '%%' || uphex(URI[o + 1]) < 0 || uphex(URI[o + 2]) < 0 || 16 * uphex(URI[o + 1]) + uphex(URI[o + 2]) != (int)(unsigned char)PATH[i]) return 0; o += 3; } } return URI[o] == 0; }
static int need(void) { int o = 8; for (int i = 0; i < %d; i++) o += legal(PATH[i]) ? 1 : 3; return o; }
""" % (n, n)
    S = ["  __CPROVER_assume(IN.size <= 32); for (int i = 0; i < 40; i++) URI[i] = IN.junk; %s PATH[%d] = 0; nprint = 0; over = 0; path = PATH; uri = URI;" % (" ".join("PATH[%d] = (char)%d;" % (i, c) if c is not None else "__CPROVER_assume(IN.path[%d] != 0); PATH[%d] = IN.path[%d];" % (i, i, i) for i, c in enumerate(shape)), n)]
    if size is not None: S.append("  IN.size = %d;" % size)
    S.append("  uriLength = IN.size;")
    E = [("nothing-outside", "!over && outside()"), ("encoded", "IMP(RETV == FMIOK, uri_is())"), ("refused-if-too-small", "IMP(IN.size < (size_t)need(), RETV == FMIError)"), ("accepted", "IMP(IN.size >= %d, RETV == FMIOK)" % (3 * n + 8)), ("status", "RETV == FMIOK || RETV == FMIError")]
    sp += "static _Bool outside(void) { for (int i = 0; i < 40; i++) if (i >= (int)IN.size && URI[i] != IN.junk) return 0; return 1; }\n"
    j = Job("FMIPathToURI.%s" % ("_".join("any" if c is None else str(c) for c in shape) or "empty") + (".in%d" % size if size is not None else ""), UNIT, Contract("FMIStatus", "FMIPathToURI", [("const char *", "path", ""), ("char *", "uri", ""), ("size_t", "uriLength", "")], requires=["path != NULL"], ensures=E), inputs="size_t size; char path[8]; char junk;", spec_decls=sp, setup="\n".join(S),
            canaries=[("returned", "1")], unwind=90, enforce=False, removed=(), mem=True, kind="bounded", timeout=200)
    j.bound = "paths of %d byte(s) of the given shape" % n
    return j

def bin_job(nd, ni, major):
    sp = "static char DIR[8], ID[8];\nstatic int slen(const char *s);\n#define SLEN(s) ((s) == DIR ? %d : (s) == ID ? %d : slen(s))\n" % (nd, ni) + SIMPLE.replace(STRLEN, "size_t vf_strlen(const char *s) { return (size_t)SLEN(s); }\n") + """static char OUT[80], X[80]; static int XL;
static void xs(const char *s) { for (int i = 0; s[i]; i++) X[XL++] = s[i]; X[XL] = 0; }
static _Bool out_is(void) { for (int i = 0; i < 80; i++) { if (OUT[i] != X[i]) return 0; if (!X[i]) return 1; } return 0; }
static _Bool outside(void) { for (int i = 0; i < 80; i++) if (i >= (int)IN.size && OUT[i] != IN.junk) return 0; return 1; }
"""
    S = ["  __CPROVER_assume(IN.size <= 64); for (int i = 0; i < 80; i++) OUT[i] = IN.junk; nprint = 0; over = 0; XL = 0;"]
    S += ["  for (int i = 0; i < %d; i++) { __CPROVER_assume(IN.dir[i] != 0 && IN.dir[i] != '\\\\'); DIR[i] = IN.dir[i]; } DIR[%d] = 0; for (int i = 0; i < %d; i++) { __CPROVER_assume(IN.id[i] != 0); ID[i] = IN.id[i]; } ID[%d] = 0;" % (nd, nd, ni, ni)]
    S += ["  for (int i = 0; i < %d; i++) X[XL++] = DIR[i]; X[XL] = 0; %s xs(\"binaries/\"); xs(\"%s\"); xs(\"/\"); for (int i = 0; i < %d; i++) X[XL++] = ID[i]; X[XL] = 0; xs(\".so\");" % (nd, "if (DIR[%d] != '/') xs(\"/\");" % (nd - 1) if nd else "", "x86_64-linux" if major == 3 else "linux64", ni)]
    S += ["  unzipdir = DIR; modelIdentifier = ID; fmiMajorVersion = FMIMajorVersion%d; platformBinaryPath = OUT; size = IN.size;" % major]
    E = [("nothing-outside", "outside()"), ("status", "RETV == (IN.size > (size_t)XL ? FMIOK : FMIError)"), ("path", "IMP(RETV == FMIOK, out_is())")]
    if not nd: E[2] = ("path", "1"); E = E[:1] + [("status", "RETV == FMIOK || RETV == FMIError")]
    j = Job("FMIPlatformBinaryPath.%d.%d.%d" % (nd, ni, major), UNIT, Contract("FMIStatus", "FMIPlatformBinaryPath", [("const char *", "unzipdir", ""), ("const char *", "modelIdentifier", ""), ("FMIMajorVersion", "fmiMajorVersion", ""), ("char *", "platformBinaryPath", ""), ("size_t", "size", "")], requires=["unzipdir != NULL"], ensures=E),
            inputs="size_t size; char dir[8], id[8]; char junk;", spec_decls=sp, setup="\n".join(S), canaries=[("built", "RETV == FMIOK"), ("refused", "RETV == FMIError")], unwind=90, enforce=False, removed=(), mem=True, kind="bounded", timeout=200)
    j.bound = "directory of %d and identifier of %d characters" % (nd, ni)
    return j
def jobs31():
    return [uri_job([None] * n) for n in range(6)] + [uri_job([9, 0x80, 0xFF, 32]), uri_job([47, 97, 92, 126, 37])] + [bin_job(nd, ni, m) for nd, ni in ((0, 1), (1, 1), (2, 2), (3, 1)) for m in (2, 3)]

# ---------------------------------------------------------------- C33
LEDGER = r"""#define LIMIT 50
#define PUT(b, o, c) ((b)[o] = (c))
static int nerr, nclose; static FMIInstance OBJ; static char LB[1024], NB[8], FT[3][4]; static char HANDLE[2]; static int nal; static _Bool live[8], bad; static char MEM[2][16];
/* objects: 0 instance, 1 log buffer, 2 name, 3..5 function tables, 6 and 7 memory of the helpers */
static void *obj(int k) { return k == 0 ? (void *)&OBJ : k == 1 ? (void *)LB : k == 2 ? (void *)NB : k < 6 ? (void *)FT[k - 3] : (void *)MEM[k - 6]; }
static _Bool fails(void) { return nal < 4 && IN.fail[nal < 4 ? nal : 3]; }
void *vf_calloc(size_t a, size_t b) { _Bool f = fails(); nal++; if (f) return NULL; if (a * b == sizeof(OBJ)) { if (live[0]) bad = 1; live[0] = 1; static FMIInstance Z; OBJ = Z; return &OBJ; } if (a * b <= 16) { if (live[6]) bad = 1; live[6] = 1; for (int i = 0; i < 16; i++) MEM[0][i] = 0; gotsize = a * b; return MEM[0]; } if (a * b == 1024) { if (live[1]) bad = 1; live[1] = 1; for (int i = 0; i < 4; i++) LB[i] = 0; return LB; } bad = 1; return NULL; }
void *vf_malloc(size_t n) { (void)n; bad = 1; return NULL; }
void *vf_realloc(void *p, size_t n) { _Bool f = fails(); nal++; if (n == 0 || (p != NULL && !(p == (void *)MEM[0] && live[6]))) { bad = 1; return NULL; } if (f) return NULL; if (p) live[6] = 0; live[7] = 1; gotsize = n; return MEM[1]; }
void vf_free(void *p) { if (!p) return; for (int k = 0; k < 8; k++) if (p == obj(k)) { if (!live[k]) bad = 1; live[k] = 0; return; } bad = 1; }
char *vf_strdup(const char *s) { _Bool f = fails(); nal++; if (f) return NULL; if (live[2]) bad = 1; live[2] = 1; for (int i = 0; i < 8; i++) { NB[i] = s[i]; if (!s[i]) break; } return NB; }
size_t vf_dummy; void *vf_dlopen(const char *p, int f) { (void)f; if (p != NAME) bad = 1; return IN.fail[0] ? NULL : (void *)HANDLE; } int vf_dlclose(void *h) { nclose++; if (h != (void *)HANDLE) bad = 1; return 0; }
int vf_vsnprintf(char *b, size_t n, const char *f, va_list ap) { (void)b; (void)n; (void)f; return 0; } int vf_snprintf(char *b, size_t n, const char *f, ...) { (void)b; (void)n; (void)f; return 0; } int vf_sprintf(char *b, const char *f, ...) { (void)b; (void)f; return 0; }
static _Bool none_live(void) { for (int k = 0; k < 8; k++) if (live[k]) return 0; return 1; }
size_t vf_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
static void cb_err(const char *m, va_list a) { (void)m; (void)a; nerr++; }
static void cb_call(FMIInstance *i, FMIStatus s, const char *m) { (void)i; (void)s; (void)m; }
static void cb_msg(FMIInstance *i, FMIStatus s, const char *c, const char *m) { (void)i; (void)s; (void)c; (void)m; }
static void start(void) { nerr = nclose = nal = 0; bad = 0; gotsize = 0; for (int k = 0; k < 8; k++) live[k] = 0; logErrorMessage = cb_err; for (int i = 0; i < 4; i++) NAME[i] = IN.name[i]; NAME[4] = 0; }
"""
HEAD33 = "static char NAME[8]; static size_t gotsize;\n"
IN33 = "uint8_t fail[4], msg, call, have, null; char name[4]; size_t count, size; uint8_t tabs[3], lib, lb, nm;"
def j33(name, c, setup, can, extra=""):
    return Job(name, UNIT, c, inputs=IN33, spec_decls=HEAD33 + LEDGER + extra, setup="  __CPROVER_assume(IN.fail[0] <= 1 && IN.fail[1] <= 1 && IN.fail[2] <= 1 && IN.fail[3] <= 1 && IN.msg <= 1 && IN.call <= 1 && IN.have <= 1 && IN.null <= 1 && IN.lib <= 1 && IN.lb <= 1 && IN.nm <= 1 && IN.tabs[0] <= 1 && IN.tabs[1] <= 1 && IN.tabs[2] <= 1); start();\n" + setup, canaries=can, unwind=12, enforce=False, removed=(), mem=True, timeout=150)
def jobs33():
    out = []
    E = [("created", "IMP(RETV != NULL, RETV == &OBJ && live[0] && live[1] && live[2] && OBJ.logMessage == logMessage && OBJ.logFunctionCall == logFunctionCall && OBJ.name == NB && same_name() && OBJ.logMessageBuffer == LB && OBJ.logMessageBufferSize == 1024 && OBJ.logMessageBufferPosition == 0 && LB[0] == 0 && OBJ.status == FMIOK && OBJ.libraryHandle == NULL && OBJ.component == NULL && !OBJ.fmi1Functions && !OBJ.fmi2Functions && !OBJ.fmi3Functions)"),
         ("null-if-out-of-memory", "IMP(IN.fail[0] || IN.fail[1] || IN.fail[2], RETV == NULL && none_live())"), ("succeeds", "IMP(!IN.fail[0] && !IN.fail[1] && !IN.fail[2], RETV != NULL)"), ("released-once", "!bad")]
    out.append(j33("FMICreateInstance", Contract("FMIInstance *", "FMICreateInstance", [("const char *", "instanceName", ""), ("FMILogMessage *", "logMessage", ""), ("FMILogFunctionCall *", "logFunctionCall", "")], requires=["instanceName != NULL"], ensures=E),
        "  instanceName = NAME; logMessage = IN.msg ? cb_msg : NULL; logFunctionCall = IN.call ? cb_call : NULL;", [("created", "RETV != NULL"), ("second-failed", "!IN.fail[0] && IN.fail[1]"), ("third-failed", "!IN.fail[0] && !IN.fail[1] && IN.fail[2]")],
        "static _Bool same_name(void) { for (int i = 0; i < 5; i++) { if (NB[i] != NAME[i]) return 0; if (!NAME[i]) return 1; } return 1; }\n"))
    E = [("released", "none_live() && !bad"), ("unloaded-once", "nclose == (IN.null ? 0 : IN.lib ? 1 : 0)")]
    out.append(j33("FMIFreeInstance", Contract("void", "FMIFreeInstance", [("FMIInstance *", "instance", "")], requires=["1"], ensures=E),
        "  static FMIInstance Z; OBJ = Z; if (IN.null) instance = NULL; else { instance = &OBJ; live[0] = 1; if (IN.lb) { live[1] = 1; OBJ.logMessageBuffer = LB; } if (IN.nm) { live[2] = 1; OBJ.name = NB; } if (IN.lib) OBJ.libraryHandle = HANDLE; if (IN.tabs[0]) { live[3] = 1; OBJ.fmi1Functions = (void *)FT[0]; } if (IN.tabs[1]) { live[4] = 1; OBJ.fmi2Functions = (void *)FT[1]; } if (IN.tabs[2]) { live[5] = 1; OBJ.fmi3Functions = (void *)FT[2]; } }",
        [("null", "IN.null"), ("all", "!IN.null && IN.lib && IN.tabs[0] && IN.tabs[1] && IN.tabs[2] && IN.lb && IN.nm")]))
    mem = ("void **", "memory", "")
    E = [("null-argument", "IMP(IN.null, RETV == FMIError && nal == 0)"), ("size-zero", "IMP(!IN.null && (IN.count == 0 || IN.size == 0), RETV == FMIOK && P == NULL && nal == 0)"),
         ("allocated", "IMP(!IN.null && IN.count && IN.size && !IN.fail[0], RETV == FMIOK && P == (void *)MEM[0] && gotsize == IN.count * IN.size && zeroed())"), ("failure-reported", "IMP(!IN.null && IN.count && IN.size && IN.fail[0], RETV == FMIError && P == NULL)"), ("clean", "!bad")]
    out.append(j33("FMICalloc", Contract("FMIStatus", "FMICalloc", [mem, ("size_t", "count", ""), ("size_t", "size", "")], ensures=E), "  __CPROVER_assume(IN.count <= 4 && IN.size <= 4); P = NULL; memory = IN.null ? NULL : &P; count = IN.count; size = IN.size;",
        [("null", "IN.null"), ("zero", "IN.count == 0"), ("ok", "!IN.null && IN.count && IN.size && !IN.fail[0]"), ("failed", "!IN.null && IN.count && IN.size && IN.fail[0]")], "static void *P; static _Bool zeroed(void) { for (int i = 0; i < 8; i++) if (MEM[0][i]) return 0; return 1; }\n"))
    E = [("null-argument", "IMP(IN.null, RETV == FMIError && nal == 0)"), ("size-zero", "IMP(!IN.null && IN.size == 0, RETV == FMIOK && P == NULL && none_live())"),
         ("resized", "IMP(!IN.null && IN.size && !IN.fail[0], RETV == FMIOK && P == (void *)MEM[1] && live[7] && !live[6] && gotsize == IN.size)"), ("failure-keeps-the-memory", "IMP(!IN.null && IN.size && IN.fail[0], RETV == FMIError && P == (IN.have ? (void *)MEM[0] : NULL) && live[6] == IN.have && !live[7])"), ("clean", "!bad")]
    out.append(j33("FMIRealloc", Contract("FMIStatus", "FMIRealloc", [mem, ("size_t", "size", "")], ensures=E), "  P = IN.have ? (void *)MEM[0] : NULL; live[6] = IN.have; memory = IN.null ? NULL : &P; size = IN.size;",
        [("null", "IN.null"), ("zero", "!IN.null && IN.size == 0 && IN.have"), ("ok", "!IN.null && IN.size && !IN.fail[0]"), ("failed", "!IN.null && IN.size && IN.fail[0] && IN.have")], "static void *P;\n"))
    out.append(j33("FMIFree", Contract("void", "FMIFree", [mem], ensures=[("reset", "P == NULL && none_live() && !bad")]), "  P = IN.have ? (void *)MEM[0] : NULL; live[6] = IN.have; memory = &P;", [("freed", "IN.have"), ("null", "!IN.have")], "static void *P;\n"))
    out.append(j33("FMILoadPlatformBinary", Contract("FMIStatus", "FMILoadPlatformBinary", [("FMIInstance *", "instance", ""), ("const char *", "libraryPath", "")], ensures=[("loaded", "RETV == (IN.fail[0] ? FMIError : FMIOK) && OBJ.libraryHandle == (IN.fail[0] ? NULL : (void *)HANDLE) && !bad")]),
        "  static FMIInstance Z; OBJ = Z; instance = &OBJ; libraryPath = NAME;", [("loaded", "!IN.fail[0]"), ("failed", "IN.fail[0]")]))
    return out

ASSUME = ["formatting functions (printf family) are replaced by stand-ins: text and hexadecimal digits as in the standard, other numbers as a short text identifying the value; digits produced by the C library are not checked",
          "allocation and library loading are replaced by stand-ins with a ledger, each call may fail", "strings in logged arrays are not null"]
