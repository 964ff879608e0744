"""property -> (check function, verification level)"""
import os

os.environ["OIL_SIM_TRACE"] = "1"


class Broken(Exception):
    """The code under test failed in a way that is itself a violation."""


import steps

CHECKS = {p: (steps.step_check, "model_checking") for p in steps.PLAN}
CHECKS["C12"] = CHECKS["C13"] = (steps.control_check, "model_checking")
import fluids
for p in ("C16", "C17", "C18", "C19"):
    CHECKS[p] = (fluids.fluid_check, "model_checking")
import runs
for p in ("C14", "C15", "C29"):
    CHECKS[p] = (runs.run_check, "model_checking")
import construct
CHECKS["C20"] = (construct.construct_check, "model_checking")
import envs
CHECKS["C21"] = CHECKS["C22"] = (envs.env_check, "model_checking")
import pairs
for p in ("C05", "C25", "C26"):
    CHECKS[p] = (pairs.pair_check, "model_checking")
import weave
CHECKS["C27"] = (weave.weave_check, "model_checking")
import amg
for p in ("C23", "C24"):
    CHECKS[p] = (amg.amg_check, "model_checking")
import pvtgen
CHECKS["C30"] = (pvtgen.pvtgen_check, "model_checking")
import export
CHECKS["C28"] = (export.export_check, "model_checking")
