SPECIFICATION Spec
CONSTANTS
  Keys = {"k1", "k2"}
  Vers = {"v1", "v2"}
  RunIds = {"r1", "r2"}
  MaxOps = 6
INVARIANTS Accounted RowsCurrent ResultsTheirs NoDuplicates
CHECK_DEADLOCK FALSE
