SPECIFICATION Spec
CONSTANTS
  MaxMats = 2
INVARIANTS SaversTransparent SaverSavesTheResult LoaderReplaces OrderFree Specific
CHECK_DEADLOCK FALSE
