SPECIFICATION Spec
CONSTANTS Depth = 2
INVARIANTS CleanIsEmpty Partition Mirror QuietMeansSame
PROPERTIES CosmeticInvisible
CHECK_DEADLOCK FALSE
