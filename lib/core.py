"""Runner for contract checks: mechanical extraction of /repo's current sources into goto programs,
enforcement of contracts with goto-instrument --dfcc, discharge with cbmc, native replay, evidence."""
import concurrent.futures as cf, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WORKERS = int(os.environ.get("VERIF_JOBS", "0") or 0) or max(2, min(16, os.cpu_count() or 4))
MODELS2 = ["BouncingBall", "Dahlquist", "Feedthrough", "Resource", "Stair", "VanDerPol"]
MODELS3 = MODELS2 + ["Clocks", "Roberts", "StateSpace"]
MEM_MB = 6000

class ToolError(Exception):
    pass

def sh(cmd, timeout=300, cwd=None, mem_mb=MEM_MB, stdin=None):
    """run a command with time and memory limits; returns (rc, stdout, stderr, timed_out)"""
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         preexec_fn=lim if mem_mb else os.setsid)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), False
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return -9, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), True

# --------------------------------------------------------------------------- sources
def read(path):
    with open(path, encoding="utf-8", errors="replace") as f: return f.read()

def strip_comments(t):
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    return re.sub(r"//[^\n]*", "", t)

class Proto:
    def __init__(self, ret, name, params):
        self.ret, self.name, self.params = ret, name, params   # params: list of (type, name, suffix)
    def decl(self):
        return "%s %s(%s)" % (self.ret, self.name, ", ".join((t + " " + n + s).strip() for t, n, s in self.params) or "void")
    def names(self): return [n for _, n, _ in self.params]

def parse_params(text):
    text = " ".join(text.split())
    out = []
    if text in ("", "void"): return out
    for k, p in enumerate(text.split(",")):
        p = p.strip()
        m = re.match(r"^(.*?)([A-Za-z_]\w*)\s*(\[\s*\])?$", p)
        if m and (re.match(r"fmi\d[A-Z]", m.group(2)) or m.group(2) in ("size_t", "int", "char", "double")) or not m:
            # unnamed parameter
            mm = re.match(r"^(.*?)\s*(\[\s*\])?$", p)
            t, n, s = mm.group(1).strip(), "arg%d" % k, (mm.group(2) or "").replace(" ", "")
        else: t, n, s = m.group(1).strip(), m.group(2), (m.group(3) or "").replace(" ", "")
        out.append((t, n, s))
    return out

def parse_function_types(ver):
    """prototypes of all FMI functions, from the function typedefs in the standard header"""
    t = strip_comments(read("%s/include/fmi%dFunctionTypes.h" % (REPO, ver)))
    protos = {}
    for m in re.finditer(r"typedef\s+([^;(]*?)\b(fmi\d\w+)TYPE\s*\(([^;]*)\)\s*;", t):
        protos[m.group(2)] = Proto(m.group(1).strip(), m.group(2), parse_params(m.group(3)))
    if len(protos) < 20: raise ToolError("could not parse function types of FMI %d" % ver)
    return protos

PROTOS = {}
def protos(ver):
    if ver not in PROTOS: PROTOS[ver] = parse_function_types(ver)
    return PROTOS[ver]

class Ctx:
    """per-run scratch directory and build products"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vchk")
        self.lock = threading.Lock()
        self.units = {}
        self.shim = os.path.join(self.dir, "shim"); os.mkdir(self.shim)
        for v in (2, 3): self.make_shim(v)
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)
    def make_shim(self, ver):
        """fmiXFunctions.h with `Export <name>TYPE <name>;` turned into ordinary prototypes (goto-instrument --dfcc
        cannot handle functions declared through function typedefs); nothing else is changed"""
        src = read("%s/include/fmi%dFunctions.h" % (REPO, ver))
        pr = protos(ver)
        def sub(m):
            n = m.group(2)
            return (m.group(1) + " " + pr[n].decl() + ";") if n in pr else m.group(0)
        out = re.sub(r"(FMI%d_Export)\s+(fmi%d\w+)TYPE\s+\2\s*;" % (ver, ver), sub, src)
        out = re.sub(r"(FMI%d_Export)\s+(fmi%d\w+)TYPE\s+(fmi%d\w+)\s*;" % (ver, ver, ver),
                     lambda m: m.group(1) + " " + Proto(pr[m.group(2)].ret, m.group(3), pr[m.group(2)].params).decl() + ";"
                     if m.group(2) in pr else m.group(0), out)
        with open("%s/fmi%dFunctions.h" % (self.shim, ver), "w") as f: f.write(out)

class Unit:
    """a set of real translation units compiled together"""
    def __init__(self, name, sources, flags, headers):
        self.name, self.sources, self.flags, self.headers = name, sources, flags, headers
        self.scale = ()   # (regex, replacement) pairs that scale down a constant for the proof; the replay uses the original
    def build(self, ctx, removed=(), drop_static=False):
        key = (self.name, tuple(sorted(removed)))
        with ctx.lock:
            ent = ctx.units.setdefault(key, {"lock": threading.Lock(), "path": None, "err": None})
        with ent["lock"]:
            if ent["path"]: return ent["path"]
            if ent["err"]: raise ToolError(ent["err"])
            base = os.path.join(ctx.dir, "u_%s_%d" % (self.name, abs(hash(key)) % 10**8))
            srcs, pre = self.sources, []
            if "logError" in removed: srcs, pre = self.logshim(ctx, base)
            rc, o, e, to = sh(["goto-cc"] + ["-I" + ctx.shim] + self.flags + pre + srcs + ["-o", base + ".gb"], 120)
            if rc:
                ent["err"] = "goto-cc failed for %s: %s" % (self.name, (o + e)[-1500:]); raise ToolError(ent["err"])
            rem = [r for r in removed if r not in ("logError", "logEvent")]
            if rem:
                cmd = ["goto-instrument"]
                for r in rem: cmd += ["--remove-function-body", r]
                rc, o, e, to = sh(cmd + [base + ".gb", base + "r.gb"], 120)
                if rc:
                    ent["err"] = "goto-instrument failed for %s: %s" % (self.name, (o + e)[-1500:]); raise ToolError(ent["err"])
                base += "r"
            ent["path"] = base + ".gb"
            return ent["path"]

    def logshim(self, ctx, base):
        """calls of the variadic functions logError/logEvent become expressions that evaluate every argument
        but do not call (dfcc instruments variadic calls wrongly); definitions are kept"""
        d = base + "_src"; os.makedirs(d, exist_ok=True)
        out = []
        for f in self.sources:
            t = re.sub(r"^(\w[\w\s\*]*?)\b(logError|logEvent)(\s*\()", r"\1(\2)\3", read(f), flags=re.M)
            for a, b in self.scale: t = re.sub(a, b, t, flags=re.M)
            t = hoist_statics(t)
            g = os.path.join(d, os.path.basename(f))
            with open(g, "w") as o: o.write('#line 1 "%s"\n' % f + t)
            out.append(g)
        sh_ = os.path.join(d, "logshim.h")
        with open(sh_, "w") as o:
            o.write('#include "config.h"\n#include "model.h"\n#define logError(c, ...) ((void)(c), (void)(__VA_ARGS__))\n'
                    '#define logEvent(c, ...) ((void)(c), (void)(__VA_ARGS__))\n')
        extra = sorted({"-I" + os.path.dirname(f) for f in self.sources})
        return out, extra + ["-include", sh_]

def hoist_statics(t):
    """moves local static variables to file scope (renamed), because dfcc adds every local static variable to the
    frame of its function and so would accept writes to state shared by all instances"""
    if "static" not in t: return t
    # blank out comments, literals and directives, keeping the positions
    m = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|^[ \t]*#(?:\\\n|[^\n])*', lambda k: re.sub(r"[^\n]", " ", k.group(0)), t, flags=re.S | re.M)
    depth, start, i, edits, n = 0, 0, 0, [], len(m)
    last = 0   # end of the last declaration at file scope
    found = []
    while i < n:
        c = m[i]
        if c == "{":
            if depth == 0: start = last
            depth += 1
        elif c == "}":
            depth -= 1
            if depth == 0: last = i + 1; [found[k].__setitem__(3, i) for k in range(len(found)) if found[k][3] is None]
        elif c == ";" and depth == 0: last = i + 1
        elif depth > 0 and m.startswith("static", i) and not (m[i - 1].isalnum() or m[i - 1] == "_") and not (m[i + 6].isalnum() or m[i + 6] == "_"):
            e, b = i, 0
            while e < n and not (m[e] == ";" and b == 0): b += m[e] in "{(["; b -= m[e] in "})]"; e += 1
            found.append([start, i, e, None]); i = e; continue
        i += 1
    if not found: return t
    out, pos, k = [], 0, 0
    groups = {}
    for f in found: groups.setdefault((f[0], f[3]), []).append(f)
    for (s0, e0), fs in sorted(groups.items()):
        # first character of the function after the previous declaration
        w = re.compile(r"\s*").match(m, s0).end()
        body, decls, p2, names = "", "", w, []
        for _, a, b, _ in fs:
            k += 1
            body += t[p2:a] + "\n" * t[a:b].count("\n"); p2 = b; decls += " ".join(t[a:b].split()) + "; "
            d = re.sub(r"\{.*?\}|=[^,;]*", " ", re.sub(r"\[[^\]]*\]", " ", m[a:b]), flags=re.S)
            for part in d.split(","):
                nm = re.findall(r"[A-Za-z_]\w*", part)
                if nm: names.append((nm[-1], "%s__static%d" % (nm[-1], k)))
        body += t[p2:e0]
        for a, b in names:
            body = re.sub(r"(?<![\w.])(?<!->)%s\b" % a, b, body); decls = re.sub(r"\b%s\b" % a, b, decls)
        out.append(t[pos:w] + decls + body); pos = e0
    return "".join(out) + t[pos:]

def fmu_unit(model, ver):
    fl = ["-DFMI_VERSION=%d" % ver, "-DDISABLE_PREFIX", "-I%s/include" % REPO, "-I%s/%s" % (REPO, model)]
    src = ["%s/%s/model.c" % (REPO, model), REPO + "/src/cosimulation.c", "%s/src/fmi%dFunctions.c" % (REPO, ver)]
    return Unit("%s%d" % (model, ver), src, fl, ['#include "config.h"', '#include "model.h"', '#include "fmi%dFunctions.h"' % ver])

# --------------------------------------------------------------------------- contracts and jobs
class Contract:
    def __init__(self, ret, name, params, requires=(), assigns=(), ensures=(), frees=()):
        self.ret, self.name, self.params = ret, name, params
        self.requires, self.assigns, self.ensures, self.frees = list(requires), list(assigns), list(ensures), list(frees)
    @staticmethod
    def of(proto, **kw): return Contract(proto.ret, proto.name, proto.params, **kw)
    def proto(self): return Proto(self.ret, self.name, self.params)
    def emit(self, name=None):
        """list of lines; ensures clause k sits on its own line"""
        p = self.proto()
        if name: p = Proto(self.ret, name, self.params)
        L = [p.decl()]
        for r in self.requires: L.append("__CPROVER_requires(%s)" % one(r))
        L.append("__CPROVER_assigns(%s)" % ", ".join(self.assigns))
        if self.frees: L.append("__CPROVER_frees(%s)" % ", ".join(self.frees))
        for n, e in self.ensures: L.append("__CPROVER_ensures(%s) /*@%s*/" % (one(e), n))
        L.append(";")
        return L

def one(s): return " ".join(s.split())

class Job:
    """One proof job: enforce `contract` on the real function inside `unit`, for every value of the inputs struct."""
    def __init__(self, name, unit, contract, inputs="", decls="", setup="", canaries=(), unwind=6, replace=(),
                 mem=False, kind="complete", removed=("logError", "logEvent"), timeout=200, flags=(), fallback=None,
                 loop_contracts=None, spec_decls="", assumptions=(), replay=True, unwindset=(), assigns_decide=False,
                 solver=None, post="", max_unwind=None, extra_src=(), ignore=(), enforce=True, pre_call="", inst_flags=(),
                 undecided_ok=False, replay_timeout=20, replay_removed=False):
        self.__dict__.update(locals()); del self.__dict__["self"]
        self.removed = tuple(removed)
    # ---- text
    def text(self):
        c = self.contract
        L = ["/* generated: %s */" % self.name,
             "#include <stdarg.h>", "#include <stdio.h>", "#include <stdlib.h>", "#include <string.h>", "#include <stdint.h>",
             "#include <stdbool.h>", "#include <math.h>", "#include <float.h>"] + list(self.unit.headers)
        L += read(VERIF + "/spec/common.h").split("\n")
        L += self.decls.split("\n")
        L += ["struct inputs {"] + self.inputs.split("\n") + ["  unsigned char _end;", "};", "static struct inputs IN;"]
        L += self.spec_decls.split("\n")
        L += ["#ifndef REPLAY"]
        if self.enforce: L += c.emit()
        for r in self.replace: L += r.emit()
        L += ["#endif"]
        L += ["#ifdef REPLAY", "int main(void) {", "  memcpy(&IN, IN_BYTES, sizeof(IN));", "#else", "void harness(void) {",
              "  struct inputs nd_inputs; IN = nd_inputs;", "#endif"]
        for t, n, s in c.params:
            L.append("  %s %s;" % (ptr_type(t, s), n))
        L += self.setup.split("\n")
        L += ["#ifdef REPLAY"] + ["  if (!(%s)) { printf(\"PRE-FAILED\\n\"); exit(77); }" % one(r) for r in c.requires] + ["#endif"]
        if not self.enforce: L += ["#ifndef REPLAY"] + ["  __CPROVER_assume(%s);" % one(r) for r in c.requires] + ["#endif"]
        L += self.pre_call.split("\n")
        call = "%s(%s);" % (c.name, ", ".join(n for _, n, _ in c.params))
        if c.ret == "void": L.append("  " + call)
        else: L.append("  %s RET = %s" % (c.ret, call))
        L += self.post.split("\n")
        L += ["#ifdef REPLAY", "  int bad = g_bad;"]
        ret = "#define RETV RET"
        for n, e in c.ensures:
            L.append("  if (!(%s)) { printf(\"ENSURES-FAILED %s\\n\"); bad = 1; }" % (one(e), n))
        L += ["  fflush(stdout); return bad;", "#else"]
        if not self.enforce:
            for n, e in c.ensures: L.append("  __CPROVER_assert(%s, \"ens:%s\");" % (one(e), n))
        L += ["  if (%s) __CPROVER_assert(0, \"canary:%s\");" % (one(cond), n) for n, cond in self.canaries]
        L += ["#endif", "}"]
        t = "\n".join(L) + "\n"
        # RETV means __CPROVER_return_value inside the emitted contract and RET in harness code
        out = []
        for l in t.split("\n"):
            if l.startswith("__CPROVER_ensures") and "/*@" in l: l = re.sub(r"\bRETV\b", "__CPROVER_return_value", l)
            else: l = re.sub(r"\bRETV\b", "RET", l)
            out.append(l)
        return "\n".join(out)

def ptr_type(t, suffix):
    if suffix == "[]": return t + " *" if not t.endswith("const") else t + " *"
    return re.sub(r"\bconst\b", "", t) if "*" not in t else t

class Result:
    def __init__(self, job):
        self.job, self.status, self.fail, self.obl, self.ok, self.detail = job, "error", [], 0, 0, ""
        self.time = 0.0; self.solver_time = 0.0; self.vacuous = []; self.backend = ""; self.kind = job.kind; self.replays = []; self.unwind = job.unwind
        self.classes = {}

MEMCLASS = ("pointer_dereference", "array_bounds", "pointer", "bounds", "pointer_primitives", "pointer_arithmetic",
            "overflow", "division-by-zero", "undefined-shift", "enum-range", "NaN", "conversion", "float-overflow", "memory-leak")

def classify(pid, desc):
    if desc.startswith("canary:"): return "canary"
    if desc.startswith("ens:"): return "harness"
    parts = pid.split(".")
    cls = parts[-2] if len(parts) >= 2 else ""
    if cls == "unwind": return "unwind"
    if cls == "recursion": return "unwind"
    if "__CPROVER_contracts" in parts[0] or parts[0].startswith("__CPROVER__"):
        return "dfcc"
    if cls in ("postcondition", "precondition", "assigns", "frees", "no-body"): return cls
    if cls.startswith("loop_") or "loop" in cls: return "loop"
    if cls == "assertion":
        if "undefined function should be unreachable" in desc: return "no-body"
        return "assertion"
    return "mem"

def run_cbmc(job, gb, unwind, extra, timeout):
    cmd = ["cbmc", gb, "--json-ui", "--verbosity", "8", "--object-bits", str(getattr(job, "object_bits", 8)), "--unwind", str(unwind), "--unwinding-assertions"]
    if job.mem: cmd += ["--bounds-check", "--pointer-check", "--pointer-primitive-check" ] if job.mem == "strict" else ["--bounds-check", "--pointer-check"]
    cmd = [cmd[0], cmd[1], "--no-standard-checks"] + cmd[2:]
    us = list(job.unwindset)
    if us: cmd += ["--unwindset", ",".join(us)]
    if job.solver == "cvc5": cmd += ["--cvc5"]
    elif job.solver == "z3": cmd += ["--z3", "--fpa", "--slice-formula"]
    elif job.solver: cmd += ["--sat-solver", job.solver]
    cmd += list(job.flags) + list(extra)
    rc, o, e, to = sh(cmd, min(timeout, getattr(job, "z3_time", 40)) if job.solver == "z3" else timeout)
    if to and job.solver == "z3":          # second opinion before giving up
        cmd[cmd.index("--z3"):cmd.index("--slice-formula") + 1] = ["--cvc5"]
        rc, o, e, to = sh(cmd, min(timeout, 60))
    if "too many addressed objects" in o + e and getattr(job, "object_bits", 8) < 12:
        job.object_bits = 12
        return run_cbmc(job, gb, unwind, extra, timeout)
    if to: return None, "timeout after %ds" % timeout, cmd
    try: js = json.loads(o)
    except ValueError:
        if "boolbv_get" in o + e:   # the tool cannot print this counterexample; take the verdicts alone
            cmd = [c for c in cmd if c != "--json-ui"]
            rc, o, e, to = sh(cmd, timeout)
            rs = [{"property": m[0], "description": m[2], "status": m[3], "sourceLocation": {"line": m[1] or "0"}, "trace": []} for m in re.findall(r"^\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE)$", o, re.M)]
            if rs and rc in (0, 10): return [{"result": rs}], "", cmd
        return None, "cbmc gave no JSON (rc %d): %s" % (rc, (o + e)[-800:]), cmd
    return js, "", cmd

def loop_contract(fn, assigns, invariant, locals_, which=-1):
    """loop contract for the which-th loop of fn (default: the outermost last one); locals_: names of local variables used"""
    def make(ctx, gb):
        rc, o, e, to = sh(["goto-instrument", "--show-loops", gb], 60)
        ids = [int(x) for x in re.findall(r"^Loop %s\.(\d+):" % re.escape(fn), o, re.M)]
        if not ids: raise ToolError("no loop in " + fn)
        if which == "real" or isinstance(which, tuple):   # the last (or given) loop that is not a do { } while (0)
            rc, o, e, to = sh(["goto-instrument", "--show-goto-functions", gb], 60)
            m = re.search(r"^%s /\*.*?END_FUNCTION" % re.escape(fn), o, re.M | re.S)
            seen, back = set(), []
            for l in (m.group(0).split("\n") if m else []):
                x = re.match(r"\s*(\d+): ", l)
                if x: seen.add(x.group(1))
                x = re.search(r"GOTO (\d+)\s*$", l)
                if x and x.group(1) in seen: back.append("IF 0 ≠ 0" not in l)
            real = [k for k, r in enumerate(back) if r]
            if len(back) != len(ids) or not real: raise ToolError("loops of %s not identified" % fn)
            if which == "real": wh = real[-1]
            elif which[1] < len(real): wh = real[which[1]]
            else: raise ToolError("loop %d of %s not found" % (which[1], fn))
        else: wh = which
        rc, o, e, to = sh(["goto-instrument", "--show-symbol-table", gb], 60)
        syms = re.findall(r"^Symbol\.+: (%s::\S+)" % re.escape(fn), o, re.M)
        mp = []
        for n in locals_:
            c = [s for s in syms if s.split("::")[-1] == n]
            if len(c) != 1: raise ToolError("local variable %s of %s not found" % (n, fn))
            mp.append("%s,%s" % (n, c[0]))
        return {"sources": [], "functions": [{fn: [{"loop_id": str(ids[wh]), "assigns": assigns, "invariants": invariant, "decreases": "", "symbol_map": ";".join(mp)}]}], "output": "OUTPUT"}
    return make

def instrument(job, ctx, wd):
    gb0 = job.unit.build(ctx, job.removed)
    h = os.path.join(wd, "h.c")
    t = job.text()
    with open(h, "w") as f: f.write(t)
    rc, o, e, to = sh(["goto-cc", "--function", "harness", "-I" + ctx.shim] + job.unit.flags + [h, gb0] + list(job.extra_src) + ["-o", wd + "/a.gb"], 120)
    if rc: raise ToolError("goto-cc failed on harness %s: %s" % (job.name, (o + e)[-1500:]))
    cmd = ["goto-instrument"] + list(job.inst_flags) + ["--dfcc", "harness"]
    if job.enforce: cmd += ["--enforce-contract", job.contract.name]
    for r in job.replace: cmd += ["--replace-call-with-contract", r.name]
    if job.loop_contracts:
        lc = job.loop_contracts(ctx, wd + "/a.gb") if callable(job.loop_contracts) else job.loop_contracts
        with open(wd + "/lc.json", "w") as f: json.dump(lc, f)
        cmd += ["--apply-loop-contracts", "--loop-contracts-file", wd + "/lc.json"]
    if not job.enforce and not job.replace and not job.loop_contracts:
        shutil.copy(wd + "/a.gb", wd + "/b.gb"); return t

    rc, o, e, to = sh(cmd + [wd + "/a.gb", wd + "/b.gb"], 120)
    if rc or to: raise ToolError("goto-instrument failed on %s: %s" % (job.name, (o + e)[-1500:]))
    return t

def run_job(job, ctx):
    r = Result(job); t0 = time.time()
    wd = tempfile.mkdtemp(prefix="j", dir=ctx.dir)
    try:
        text = instrument(job, ctx, wd)
        r.text = text; r.wd = wd
        lines = text.split("\n")
        unwind = job.unwind; tries = 0
        while True:
            js, err, cmd = run_cbmc(job, wd + "/b.gb", unwind, [], job.timeout)
            r.cmd = cmd
            if js is None: r.status, r.detail = "error", err; break
            res = None; msgs = []
            for x in js:
                if "result" in x: res = x["result"]
                if x.get("messageType") == "ERROR": msgs.append(x.get("messageText", ""))
                mt = x.get("messageText", "")
                m = re.match(r"Runtime decision procedure: ([\d.e-]+)s", mt)
                if m: r.solver_time += float(m.group(1))
            if res is None: r.status, r.detail = "error", "no result: " + "; ".join(msgs)[-600:]; break
            r.unwind = unwind
            fails, unw, vac, nobody, undecided, obl, ok = [], [], [], [], [], 0, 0
            seen_canary = set()
            classes = {}
            for x in res:
                d, pid, st = x.get("description", ""), x["property"], x["status"]
                c = classify(pid, d)
                loc = x.get("sourceLocation", {})
                if c == "canary":
                    seen_canary.add(d[7:])
                    if st != "FAILURE": vac.append(d[7:])
                    continue
                obl += 1; classes[c] = classes.get(c, 0) + 1
                if st == "SUCCESS": ok += 1; continue
                name = d
                if c == "postcondition" or c == "precondition":
                    ln = int(loc.get("line", 0) or 0)
                    if 0 < ln <= len(lines):
                        m = re.search(r"/\*@(.*?)\*/", lines[ln - 1])
                        if m: name = m.group(1)
                if c == "harness": name = d[4:]
                f = {"class": c, "property": pid, "name": name, "desc": d, "loc": "%s:%s" % (loc.get("file", "?"), loc.get("line", "?")), "function": loc.get("function", "")}
                if st != "FAILURE": undecided.append(f); continue
                if c == "unwind": unw.append(f)
                elif c == "no-body": nobody.append(f)
                elif c in ("dfcc", "loop"): undecided.append(f)
                elif c in ("assigns", "frees") and not job.assigns_decide: ok += 1  # decided by C25
                elif c == "mem" and not job.mem: ok += 1
                elif any(re.search(p, pid + " " + d) for p in job.ignore): ok += 1
                else: fails.append(f)
            r.obl, r.ok, r.classes = obl, ok, classes
            missing = [n for n, _ in job.canaries if n not in seen_canary]
            r.vacuous = vac + missing
            if fails: r.status, r.fail = "fail", fails; r.undecided = undecided; break
            if unw:
                tries += 1
                lim = job.max_unwind or job.unwind * 8
                if unwind * 2 <= lim and tries <= 3: unwind *= 2; continue
                if str(job.kind).startswith("bounded"):
                    r.status = "ok" if not (r.vacuous or nobody or undecided) else "error"
                    r.detail = "unwinding capped at %d" % unwind
                    r.obl -= len(unw)
                    break
                r.status, r.detail = "error", "unwinding assertion fails at unwind=%d: %s" % (unwind, unw[0]["property"]); break
            if nobody: r.status, r.detail = "error", "function without body reachable: %s" % nobody[0]["desc"] + nobody[0]["property"]; break
            if undecided: r.status, r.detail = "undecided", "undecided obligation %s (%s)" % (undecided[0]["property"], undecided[0]["desc"]); r.undecided = undecided; break
            if obl == 0: r.status, r.detail = "error", "no obligations"; break
            if r.vacuous: r.status, r.detail = "error", "vacuity guard: canary not reachable: %s" % ",".join(r.vacuous); break
            r.status = "ok"; break
    except ToolError as ex:
        r.status, r.detail = "error", str(ex)
    except Exception:
        r.status, r.detail = "error", traceback.format_exc()[-1500:]
    r.backend = {"cvc5": "cvc5", "z3": "z3", None: "SAT (MiniSat 2.2)"}.get(job.solver, "SAT (%s)" % job.solver)
    r.time = time.time() - t0
    if r.status not in ("fail",): shutil.rmtree(wd, ignore_errors=True)
    fof = getattr(job, "fallback_on_fail", False)     # True, or a predicate over the failed obligations
    if (r.status in ("error", "undecided") or (r.status == "fail" and (fof(r.fail) if callable(fof) else fof))) and job.fallback is not None:
        if r.status == "fail": r.detail = "inductive obligation failed: " + r.fail[0]["name"]; shutil.rmtree(wd, ignore_errors=True)
        fb = job.fallback() if callable(job.fallback) else job.fallback
        r2 = run_job(fb, ctx); r2.detail = "(fallback after %s: %s) %s" % (r.status, r.detail[:200], r2.detail); r2.time += r.time
        r2.degraded = True
        return r2
    if r.status == "undecided":
        if not job.undecided_ok: r.status = "error"
    return r

# --------------------------------------------------------------------------- replay
def tobytes(v):
    n = v.get("name")
    if n == "struct": return b"".join(tobytes(m["value"]) for m in v["members"])
    if n == "array": return b"".join(tobytes(e["value"]) for e in v["elements"])
    if "binary" in v:
        b = v["binary"]; w = len(b)
        if w % 8: b = b.rjust((w + 7) // 8 * 8, "0")
        return int(b, 2).to_bytes(len(b) // 8, "little")
    w = v.get("width") or 8
    if n == "boolean": return bytes([1 if str(v.get("data")).lower() in ("true", "1") else 0])
    return b"\0" * ((int(w) + 7) // 8)

def set_path(tree, path, v):
    cur, parent, slot = tree, None, None
    for m in re.finditer(r"\.([\w$]+)|\[(\d+)\w*\]", path):
        nxt = None
        if m.group(1):
            for e in cur.get("members", ()):
                if e["name"] == m.group(1): nxt = e
        else:
            for e in cur.get("elements", ()):
                if int(e.get("index", -1)) == int(m.group(2)): nxt = e
        if nxt is None: return
        slot, cur = nxt, nxt["value"]
    if slot is not None: slot["value"] = v

def extract_input(job, wd, pid, unwind):
    js, err, cmd = run_cbmc(job, wd + "/b.gb", unwind, ["--property", pid, "--trace"], max(job.timeout, 120))
    if js is None: return None, err
    for x in js:
        for y in x.get("result", []):
            if y["property"] == pid and "trace" in y:
                tree = None
                for s in y["trace"]:
                    if s.get("stepType") != "assignment": continue
                    l, v = s.get("lhs", ""), s.get("value", {})
                    if l == "IN" and v.get("name") == "struct": tree = v
                    elif tree is not None and l.startswith("IN.") and v.get("name") != "unknown": set_path(tree, l[2:], v)
                if tree is None: return None, "no input assignment in trace"
                return tobytes(tree), ""
    return None, "no trace"

def do_replay(r, f, ctx, outdir, idx):
    """build the same harness natively against the real sources and run it on the counterexample"""
    job = r.job
    os.makedirs(outdir, exist_ok=True)
    base = os.path.join(outdir, "%s.%d" % (re.sub(r"[^\w.]", "_", job.name), idx))
    info = {"job": job.name, "function": job.contract.name, "obligation": f, "kind": job.kind, "checker_cmd": " ".join(r.cmd), "confirmed": False}
    raw, err = (None, "replay not available for this obligation")
    if job.replay: raw, err = extract_input(job, r.wd, f["property"], r.unwind)
    confirmed = False
    if raw is not None:
        arr = ",".join(str(b) for b in raw)
        with open(base + ".replay.c", "w") as o:
            o.write("static const unsigned char IN_BYTES[] = {%s};\n#define REPLAY 1\n" % arr + r.text)
        exe = os.path.join(ctx.dir, "replay%d_%d" % (idx, abs(hash(job.name)) % 10**6))
        cmd = ["gcc", "-g", "-O1", "-w", "-fno-strict-aliasing", "-fno-builtin", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
               "-I" + ctx.shim] + job.unit.flags + [base + ".replay.c"] + job.unit.sources + list(job.extra_src) + ["-lm", "-ldl", "-o", exe]
        cmd += list(getattr(job, "replay_flags", ()))
        info["replay_build"] = " ".join(cmd)
        rc, o, e, to = sh(cmd, 120, mem_mb=0)
        if rc: info["replay_error"] = e[-1500:]
        else:
            env_cmd = ["env", "ASAN_OPTIONS=detect_leaks=%d:exitcode=99:abort_on_error=0" % (1 if getattr(job, "leaks", False) else 0), exe]
            rc, o, e, to = sh(env_cmd, job.replay_timeout, mem_mb=0, cwd=ctx.dir)
            info["replay_rc"], info["replay_out"] = rc, (o + e)[-3000:]
            if to: info["replay_rc"] = "timeout"
            confirmed = (rc == 1 and "ENSURES-FAILED" in o) or (rc not in (0, 1, 77) and not to) or (rc == 1 and "runtime error" in e) or (to and "terminat" in f["name"])
        info["inputs_hex"] = raw.hex()
    else: info["no_input"] = err
    info["confirmed"] = confirmed
    with open(base + ".json", "w") as o: json.dump(info, o, indent=1)
    return base + ".json", confirmed

# --------------------------------------------------------------------------- driver
TRUSTED = ["CBMC 6.11 front end (goto-cc), goto-instrument --dfcc contract instrumentation, symbolic execution and bit-level IEEE-754 encoding",
           "SAT/SMT back end named per obligation", "the contracts and specification functions in /verif/spec and /verif/lib"]

def known_findings(pid):
    out = []
    path = VERIF + "/known-findings.json"
    if os.path.exists(path):
        for k in json.load(open(path)).get("findings", []):
            if k["property"] == pid and k.get("status") == "open": out.append(k)
    return out

def run_check(pid, jobs, assumptions, level, note, ctx, t0):
    jobs = list(jobs)
    only = os.environ.get("VERIF_ONLY")
    if only: jobs = [j for j in jobs if re.search(only, j.name)]
    results = []
    order = sorted(range(len(jobs)), key=lambda i: -getattr(jobs[i], "weight", 1))
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        futs = {ex.submit(run_job, jobs[i], ctx): i for i in order}
        for fu in cf.as_completed(futs):
            r = fu.result(); results.append(r)
            if os.environ.get("VERIF_VERBOSE"):
                print("%-60s %-9s obl=%d/%d t=%.1f %s %s" % (r.job.name, r.status, r.ok, r.obl, r.time, r.detail[:int(os.environ.get("VERIF_W", "300"))], [(f["name"] if f["class"] != "mem" else f["property"] + f["desc"]) for f in r.fail][:3]), flush=True)
    outdir = VERIF + "/evidence/replay/" + pid
    shutil.rmtree(outdir, ignore_errors=True)
    kf = known_findings(pid)
    violations, errors, knowns = [], [], []
    nrep = 0
    results.sort(key=lambda r: r.job.name)
    for r in results:
        if r.status == "fail":
            unlisted = []
            for f in r.fail:
                k = next((k for k in kf if re.fullmatch(k["job"], r.job.name) and re.fullmatch(k["obligation"], f["name"])), None)
                if k: knowns.append(k)
                else: unlisted.append(f)
            if not unlisted:
                r.status = "known"; continue
            done = False
            for f in unlisted[:2]:
                if nrep >= 6 and done is False and violations: break
                path, conf = do_replay(r, f, ctx, outdir, nrep); nrep += 1
                if conf: violations.append((r, f, path, True)); done = True; break
            if not done:
                if nrep >= 7 and violations: path = violations[0][2]
                violations.append((r, unlisted[0], path, False))
            if len(violations) >= 8: break
        elif r.status != "ok": errors.append(r)
    seen = set()
    for k in knowns:
        key = k["what"]
        if key not in seen: seen.add(key); print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    # a listed finding that no longer shows up is only noted in the evidence
    stale = [k["what"] for k in kf if k["what"] not in seen]
    done = [r for r in results if r.status in ("ok", "known")]
    complete = [r for r in done if not str(r.kind).startswith("bounded") and not getattr(r, "degraded", False) or (getattr(r, "degraded", False) and not str(r.job.kind).startswith("bounded"))]
    bounded = [r for r in done if r not in complete]
    fns = sorted({r.job.contract.name for r in results})
    backs = {}
    for r in results: backs[r.backend] = backs.get(r.backend, 0) + r.ok
    ev = {"property": pid, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED, "level": level,
          "coverage": {"obligations": sum(r.obl for r in results), "discharged": sum(r.ok for r in results),
                       "checker_cmd": "goto-cc | goto-instrument --dfcc harness --enforce-contract F | " + (" ".join(results[0].cmd[:1] + results[0].cmd[2:]) if results and hasattr(results[0], "cmd") else "cbmc"),
                       "trusted_base": TRUSTED, "jobs": len(results), "jobs_proved_complete": len(complete), "jobs_bounded": len(bounded),
                       "obligations_in_complete_jobs": sum(r.obl for r in complete), "obligations_in_bounded_jobs": sum(r.obl for r in bounded),
                       "bounded_jobs": sorted({"%s [%s]%s" % (r.job.name, r.kind, " degraded" if getattr(r, "degraded", False) else "") for r in bounded})[:400],
                       "functions_under_contract": fns, "back_ends": backs, "solver_time_s": round(sum(r.solver_time for r in results), 2),
                       "cpu_time_s": round(sum(r.time for r in results), 1),
                       "canaries_reached": sum(len(r.job.canaries) for r in done),
                       "known_findings_seen": sorted(seen), "known_findings_not_seen": stale, "note": note,
                       "undecided": [{"job": r.job.name, "why": r.detail[:500]} for r in errors]},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 1),
          "violations": len(violations)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f: json.dump(ev, f, indent=1)
    for r, f, path, conf in violations:
        print("failed obligation: %s :: %s (%s, %s)%s" % (r.job.name, f["name"], f["property"], f["loc"], "" if conf else " [not replayed]"))
    for r in errors if not os.environ.get("VERIF_VERBOSE") else []: print("UNDECIDED %s: %s" % (r.job.name, r.detail[:600]), file=sys.stderr)
    if violations:
        conf = [v for v in violations if v[3]]
        v = (conf or violations)[0]
        print("VIOLATION property=%s replay=%s%s" % (pid, v[2], "" if v[3] else " no-failing-input-found"))
        return 1
    if errors or not results:
        print("UNDECIDED: %d of %d jobs gave no answer for %s" % (len(errors), len(results), pid))
        return 2
    print("OK property=%s obligations=%d jobs=%d wall=%.0fs" % (pid, ev["coverage"]["discharged"], len(results), time.time() - t0))
    return 0
