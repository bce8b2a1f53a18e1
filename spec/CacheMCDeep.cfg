SPECIFICATION Spec
CONSTANTS
  NoKey = NoKey
  Ignored = Ignored
  MaxRuns = 3
  MaxFaults = 1
  Inputs = {0, 1}
  Codes = {1, 2}
  Behs = {"default", "recompute", "disable", "ignore"}
INVARIANTS Transparent Sound Justified DisableForces
CHECK_DEADLOCK FALSE
