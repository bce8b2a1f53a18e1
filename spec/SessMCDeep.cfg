SPECIFICATION Spec
CONSTANTS
  MaxSteps = 4
  Params = {"a", "b", "x"}
  MaxB = 2
  MaxD = 1
  CfgKeys = {"x"}
INVARIANTS UpDownDual PathSound LastWins UsedWithinUp
PROPERTIES SnapshotStable CopyIndependent
CHECK_DEADLOCK FALSE
