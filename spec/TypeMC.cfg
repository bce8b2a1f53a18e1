SPECIFICATION Spec
INVARIANTS AnyTakesAll UnionTakesMore UnionTakesNoMore UnionSymmetric AnnotatedIsNothing ListIsSequence ListIsList TupleLengths MoreTakesMore
CHECK_DEADLOCK FALSE
