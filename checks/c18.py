"""IMRPhenomXAS against its reference model."""
from checks import refs

LEVEL = "model_checking"
EXPLAIN = "the strain and both polarizations equal the reference model (validated against lalsimulation) at every input of the box, in and between all regions and beyond the cutoff, decided by symbolic execution of both and the solver"
TASK_NAMES = ["XAS"]
OUTSIDE = "the isolated end of the model; changes below 1e-6 relative; float rounding"
TASKS = {"XAS": refs.aligned("XAS")}
