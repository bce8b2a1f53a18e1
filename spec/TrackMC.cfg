SPECIFICATION Spec
CONSTANTS
  MaxBatch = 2
  Refusals = 1
  Script <- S1
INVARIANTS Once NothingInvented NoLossAtStop FinalState
PROPERTIES Delivered NeverBack
CHECK_DEADLOCK FALSE
