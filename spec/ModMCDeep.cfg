SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS PipeIsFold ParamIsApplication ConfigSelects SubdagIsInlining
CHECK_DEADLOCK FALSE
