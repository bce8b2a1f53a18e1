SPECIFICATION Spec
CONSTANTS
  MaxMats = 1
INVARIANTS SaversTransparent SaverSavesTheResult LoaderReplaces OrderFree Specific
CHECK_DEADLOCK FALSE
