SPECIFICATION Spec
CONSTANTS Depth = 4
INVARIANTS CleanIsEmpty Partition Mirror QuietMeansSame
PROPERTIES CosmeticInvisible
CHECK_DEADLOCK FALSE
