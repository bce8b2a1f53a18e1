SPECIFICATION Spec
CONSTANTS N = 3
 L = 3
INVARIANTS Exists KeepsAll AddsNone Rect Shrinks MatrixShape
CHECK_DEADLOCK FALSE
