"""C24: the Resource model reads its file."""
from models import *
M = "Resource"
FILEDEFS = ["-Dfopen=vf_fopen", "-Dfgetc=vf_fgetc", "-Dgetc=vf_fgetc", "-Dfclose=vf_fclose", "-Dstrtol=vf_strtol"]
SMALL = 40   # length of the path buffer in the proofs (4096 in the replay)
def unit(ver, small=False):
    u = fmu_unit(M, ver)
    v = Unit(u.name + ("s" if small else "f"), u.sources, u.flags + FILEDEFS, u.headers)
    if small: v.scale = [(r"^#define\s+MAX_PATH_LENGTH\s+4096\b", "#define MAX_PATH_LENGTH %d" % SMALL)]
    return v

IO = """static int nopen, nclose, nread; static _Bool path_ok, order_ok; static char THEFILE[8];
static char LOC[CAP]; static char EXP[CAP + 8];
FILE *vf_fopen(const char *path, const char *mode) { nopen++; for (int i = 0; i < CAP + 8; i++) { if (path[i] != EXP[i]) { path_ok = 0; break; } if (!EXP[i]) break; } if (mode[0] != 'r') path_ok = 0; return IN.missing ? NULL : (FILE *)(void *)THEFILE; }
int vf_fgetc(FILE *f) { nread++; if ((void *)f != (void *)THEFILE || nclose >= nopen) order_ok = 0; return IN.ch; }
int vf_fclose(FILE *f) { nclose++; if ((void *)f != (void *)THEFILE || nclose > nopen) order_ok = 0; return 0; }
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
long vf_strtol(const char *s, char **end, int base) { (void)end; (void)base; if (hexv(s[0]) >= 0 && hexv(s[1]) >= 0 && base == 16) return 16 * hexv(s[0]) + hexv(s[1]); return IN.odd; }
#ifndef REPLAY
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
/* the zero padding of strncpy is not modelled; the buffers it is used on are read up to their terminator only */
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; if (i < n) d[i] = 0; return d; }
char *strncat(char *d, const char *s, size_t n) { size_t k = strlen(d), i = 0; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
#endif
"""
# expected path of a location (returns 0 if the location is not acceptable)
WANT = {3: """static _Bool want(void) { int n = 0; while (LOC[n]) { EXP[n] = LOC[n]; n++; } const char *t = "y.txt"; for (int i = 0; i < 6; i++) EXP[n + i] = t[i]; return 1; }""",
        2: """static _Bool pre(const char *p, int n) { for (int i = 0; i < n; i++) if (LOC[i] != p[i]) return 0; return 1; }
static _Bool want(void) { int i, n = 0; if (pre("file:///", 8)) i = 7; else if (pre("file:/", 6)) i = 5; else { EXP[0] = 0; return 0; }
  while (LOC[i]) { if (LOC[i] == '%' && LOC[i + 1] && LOC[i + 2]) { EXP[n++] = (char)(16 * hexv(LOC[i + 1]) + hexv(LOC[i + 2])); i += 3; } else EXP[n++] = LOC[i++]; }
  const char *t = "/y.txt"; for (int k = 0; k < 7; k++) EXP[n + k] = t[k]; return 1; }"""}
GET = {3: "fmi3GetInt32", 2: "fmi2GetInteger"}

def read_job(ver, kind, text="", length=None):
    """kind: null, scheme (any 8 characters), text (a location of the given shape: c any character but % and 0,
    h a hexadecimal digit, others literal), long (a location of the given length, path buffer scaled to SMALL)"""
    fn = GET[ver]; p = protos(ver)[fn]; nm = [x[1] for x in p.params]; cap = 64
    allowed = (ALLOWED3 if ver == 3 else ALLOWED2)[fn]
    S = ["  __CPROVER_assume(valid_in(&IN.inst) && IN.missing <= 1 && IN.ch >= 0 && IN.ch <= 255); %s = (void *)mk_instance(&IN.inst); __CPROVER_assume(%s);" % (nm[0], mode_in(allowed, "g_obj.state")),
         "  nopen = nclose = nread = 0; path_ok = order_ok = 1;"]
    if kind == "null": S += ["  g_obj.resourceLocation = NULL; WOK = 0;"]
    else:
        if kind == "scheme": S += ["  for (int i = 0; i < 8; i++) LOC[i] = IN.loc[i]; LOC[8] = 0; __CPROVER_assume(!want());"]
        elif kind == "long":
            S += ["  for (int i = 0; i < OFS + %d; i++) LOC[i] = 'a'; LOC[OFS + %d] = 0;" % (length, length)] + ["  LOC[%d] = '%s';" % (i, c) for i, c in enumerate("file:///" if ver == 2 else "")]
        else:
            for i, c in enumerate(text):
                if c == "c": S += ["  __CPROVER_assume(IN.loc[%d] != 0 && IN.loc[%d] != '%%'); LOC[%d] = IN.loc[%d];" % (i, i, i, i)]
                elif c == "h": S += ["  __CPROVER_assume(hexv(IN.loc[%d]) >= 0); LOC[%d] = IN.loc[%d];" % (i, i, i)]
                else: S += ["  LOC[%d] = '%s';" % (i, c)]
            for i, c in enumerate(text):
                if text[i:i + 3] == "%hh": S += ["  __CPROVER_assume(LOC[%d] != '0' || LOC[%d] != '0');" % (i + 1, i + 2)]
            S += ["  LOC[%d] = 0;" % len(text)]
        S += ["  g_obj.resourceLocation = LOC; WOK = want();"]
    S += ["  OLD = g_obj; VR[0] = 1; OUT[0] = IN.out0; %s = VR; %s = 1; %s = OUT;" % (nm[1], nm[2], nm[3])]
    if ver == 3: S += ["  %s = 1;" % nm[4]]
    good = "(WOK && !IN.missing)"
    E = [("opened-by-that-path", "path_ok"), ("read-then-closed", "order_ok && nclose == (IN.missing ? 0 : nopen)"), ("failures-reported", "IMP(!%s, RETV == %s && MI->state == Terminated)" % (good, ERR[ver]))]
    if kind == "long": E += [("either-read-or-refused", "(RETV == %s && nopen > 0 && OUT[0] == (int)(char)IN.ch) || RETV == %s" % (OKS[ver], ERR[ver]))]
    else: E += [("first-character", "IMP(%s, RETV == %s && MI->state == OLD.state && OUT[0] == (int)(char)IN.ch && nopen > 0)" % (good, OKS[ver]))]
    E += [("rest-unchanged", "same_id(MI, &OLD) && same_log(MI, &OLD) && same_time(MI, &OLD) && same_limits(MI, &OLD)")]
    can = {"text": [("read", good), ("missing", "WOK && IN.missing")]}.get(kind, [("returned", "1")])
    ty = "int32_t" if ver == 3 else "int"
    dec = "#ifdef REPLAY\n#define OFS %d\n#define CAP 4200\n#else\n#define OFS 0\n#define CAP %d\n#endif\n" % (4096 - SMALL, cap) if kind == "long" else "#define OFS 0\n#define CAP %d\n" % cap
    tag = {"null": "null", "scheme": "scheme", "text": "text:" + (text or "empty"), "long": "long%d" % (length or 0)}[kind]
    j = Job("Resource%d.%s.%s" % (ver, fn, tag.replace("%", "p").replace("/", "-")), unit(ver, True), Contract.of(p, requires=["%s != NULL" % nm[0]], assigns=[], ensures=E), inputs="struct inst_in inst; uint8_t missing; int ch, out0; long odd; char loc[24];", decls=inst_decls(M, ver),
            spec_decls=dec + IO + WANT[ver] + "\nstatic _Bool WOK; static unsigned VR[1]; static %s OUT[1];" % ty, setup="\n".join(S), canaries=can, unwind=(length or 20) + 14, enforce=False, mem=True, kind="bounded" if kind != "null" else "complete", timeout=150)
    j.bound = {"text": "locations of the shape " + text, "scheme": "locations of at most 8 characters", "long": "one location of length %d with the path buffer scaled to %d" % (length or 0, SMALL), "null": ""}[kind]
    return j

TEXTS = {3: ["", "c", "/ccc/", "c%hhc/"], 2: ["file:/", "file:///", "file:/cc", "file:///ccc", "file:///c%hhc", "file:/%hh%hhc", "file:///c%hh", "file:///cc%", "file:///c%c", "file:/c/c%hh"]}
def jobs():
    out = []
    for v in (3, 2):
        out += [read_job(v, "null")] + [read_job(v, "text", t) for t in TEXTS[v]]
        out += [read_job(v, "long", length=L) for L in (SMALL - 8, SMALL - 7, SMALL - 6, SMALL - 5, SMALL - 4, SMALL, SMALL + 1, SMALL + 9)]
    out += [read_job(2, "scheme")]
    return out

ASSUME = ["the path buffer is scaled from 4096 to %d characters in the proofs (the replay uses the original)" % SMALL,
          "file access is replaced by stand-ins recording path, mode and order of calls (fopen, fgetc, fclose)", "string functions are replaced by stand-ins with the standard meaning (without strncpy's zero padding)",
          "a percent sign followed by at least two characters in an FMI 2.0 location is followed by two hexadecimal digits other than 00", "the file is not empty",
          "logError/logEvent bodies replaced by stubs that only count (their real bodies are verified by C23)"]
