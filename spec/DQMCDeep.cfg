SPECIFICATION Spec
CONSTANT MaxChecks = 2
INVARIANTS CheckedBeforeUse FailureIsBad EndsRight WarnTransparent RawUnchecked
PROPERTY Terminates
CHECK_DEADLOCK FALSE
