SPECIFICATION CSpec
INVARIANT TraceInv
CHECK_DEADLOCK FALSE
