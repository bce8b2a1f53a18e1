SPECIFICATION Spec
CONSTANT MaxChecks = 1
INVARIANTS CheckedBeforeUse FailureIsBad EndsRight WarnTransparent RawUnchecked
PROPERTY Terminates
CHECK_DEADLOCK FALSE
