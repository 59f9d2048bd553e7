"""C27/C28: the importer forwards every call; C29: it tracks modes; part of C30: every logged call has all its values."""
from imp import *
from imp import imp_protos as ip_

def skip(ver): return {"FMI3InstantiateModelExchange", "FMI3InstantiateCoSimulation", "FMI3InstantiateScheduledExecution", "FMI2Instantiate"}
def names(ver): return [n for n in ip_(ver) if n not in skip(ver) and n.replace("FMI%d" % ver, "fmi%d" % ver) in protos(ver)]

def fwd_ens(i):
    E = [("one-call", "ncalls == 1 && nwrong == 0")]
    if not i["nocomp"]: E.append(("component", "C0 == (void *)COMP"))
    if i["fwd"]: E.append(("arguments", " && ".join(i["fwd"])))
    free = i["fmu"].endswith("FreeInstance")
    if i["nocomp"]: E.append(("returned", "RETV == VER"))
    elif free and i["ver"] == 3: E.append(("returned", "RETV == FMIOK"))
    elif i["ret"] != "void": E.append(("returned", "(int)RETV == IN.st"))
    if i["outs"]: E.append(("outputs", " && ".join(i["outs"])))
    st = "0" if i["nocomp"] or free else "IN.st"
    E.append(("logged-once", "nlog == (IN.log ? 1 : 0) && IMP(IN.log, logst == %s && log_ok)" % st))
    E.append(("instance", "same_ii()" + ("" if free else " && II.component == OLDI.component")))
    return E

def fwd_jobs(ver): return [wrapper_job(ver, n, fwd_ens) for n in names(ver)]
def jobs27(): return fwd_jobs(3)
def jobs28(): return fwd_jobs(2)

# importer modes
ST = dict(start=1, inst=2, init=4, term=8, conf=16, reconf=32, event=64, cont=128, step=256, clock=512)
def mode_after(ver, fn):
    n = fn[4:]
    if n == "EnterInitializationMode": return "4"
    if n == "ExitInitializationMode": return "(IN.itype == 0 ? 64 : IN.itype == 1 ? (IN.emu ? 64 : 256) : 512)" if ver == 3 else "(IN.itype == 0 ? 64 : 256)"
    if n == "EnterEventMode": return "64"
    if n == "Terminate": return "8"
    if n == "Reset": return "2"
    if n == "EnterContinuousTimeMode": return "128"
    if n == "EnterStepMode": return "256"
    if n == "EnterConfigurationMode": return "(IN.state == 2 ? 16 : 32)"
    if n == "ExitConfigurationMode": return "(IN.state == 16 ? 2 : IN.itype == 0 ? 64 : IN.itype == 1 ? 256 : 512)"
    if n == "FreeInstance": return None
    return "IN.state"
def mode_ens(i):
    m = mode_after(i["ver"], i["fn"])
    E = [("mode", "IMP(IN.st <= 1, (int)II.state == %s)" % m)] if m else []
    return E + [("interface", "II.interfaceType == OLDI.interfaceType && II.name == OLDI.name && II.libraryHandle == OLDI.libraryHandle")]
def text_ens(i): return [("every-placeholder-has-a-value", "fmt_ok"), ("arrays-of-the-call", "arr_ok")]
def track_jobs(): return [wrapper_job(v, n, mode_ens, ".mode") for v in (3, 2) for n in names(v)]
def text_jobs(): return [wrapper_job(v, n, text_ens, ".text") for v in (3, 2) for n in names(v)]

ASSUME = ["the FMU behind the function table is represented by recording stand-ins that return any status and write any output", "output arguments that are single values are valid pointers when a call logger is installed",
          "functions appending to the call log are replaced by stand-ins (their real bodies are verified by C30)", "the importer instance has been instantiated (function table present)"]
