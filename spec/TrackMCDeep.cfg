SPECIFICATION Spec
CONSTANTS
  MaxBatch = 3
  Refusals = 2
  Script <- S2
INVARIANTS Once NothingInvented NoLossAtStop FinalState
PROPERTIES Delivered NeverBack
CHECK_DEADLOCK FALSE
