SPECIFICATION Spec
CONSTANTS N = 2
INVARIANTS Appends OnlySelected NoTwice Rows Irrelevant OtherColumns TwoSteps
CHECK_DEADLOCK FALSE
