SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS PipeIsFold ParamIsApplication ConfigSelects SubdagIsInlining
CHECK_DEADLOCK FALSE
