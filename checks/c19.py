"""IMRPhenomD_NRTidalv2 against its reference model."""
from checks import refs

LEVEL = "model_checking"
EXPLAIN = "the strain and both polarizations, for both forms of tidal parameters, with and without taper, equal the reference model (validated against lalsimulation) at every input of the box, in and between all regions, decided by symbolic execution of both and the solver"
TASK_NAMES = ["NRT", "NRTL", "NRT0", "NRTL0"]
OUTSIDE = "the isolated frequency M f = 0.2; changes below 1e-6 relative; float rounding"
TASKS = {n: refs.aligned(n) for n in TASK_NAMES}
