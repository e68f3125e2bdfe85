"""IMRPhenomPv2 against its reference model."""
from checks import refs

LEVEL = "model_checking"
EXPLAIN = "both polarizations of both interfaces equal the reference model (validated against lalsimulation) at every input of the box, decided by symbolic execution of both and the solver"
TASK_NAMES = ["P", "PMc"]
OUTSIDE = "changes below 1e-6 relative; float rounding"
TASKS = {n: refs.precessing(n) for n in TASK_NAMES}
