SPECIFICATION TraceSpec
CONSTANTS
  NoKey = NoKey
  Ignored = Ignored
CHECK_DEADLOCK FALSE
