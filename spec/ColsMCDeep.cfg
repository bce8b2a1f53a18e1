SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS Appends OnlySelected NoTwice Rows Irrelevant OtherColumns TwoSteps
CHECK_DEADLOCK FALSE
