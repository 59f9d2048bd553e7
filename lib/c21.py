"""C21: StateSpace arrays: layout for every dimension choice, equations, structural parameters."""
from models import *
import c03, c04, c04ss, c16, c17
def jobs():
    dims = [(1, 2, 3), (3, 1, 2), (2, 3, 1), (5, 5, 5), (5, 4, 3), (0, 3, 1), (3, 0, 2), (4, 5, 0)] if TIER != "thorough" else [(a, b, c) for a in range(6) for b in range(6) for c in range(6)]
    conf = [c03.job("StateSpace", 3, fn) for fn in ("fmi3EnterConfigurationMode", "fmi3ExitConfigurationMode", "fmi3ExitInitializationMode")]
    conf += [c17.vec_job("StateSpace", 3, w) for w in ("get", "set", "der")] + [c16.step_job("StateSpace", 3)]
    return conf + c04ss.jobs("read") + c04ss.jobs("write") + [c17.ss_calc_job(*d) for d in dims] + [c04.read_job("StateSpace", 3, "UInt64"), c04.write_job("StateSpace", 3, "UInt64"), c04.protect_job("StateSpace", 3, "UInt64")]
ASSUME = c04.ASSUME + ["the state space equations are evaluated in the documented order of summation (rows times columns ascending, state terms before input terms)"]
