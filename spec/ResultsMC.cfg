SPECIFICATION Spec
CONSTANTS N = 2
 L = 3
INVARIANTS Exists KeepsAll AddsNone Rect Shrinks MatrixShape
CHECK_DEADLOCK FALSE
