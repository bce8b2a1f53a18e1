CONSTANT MaxLen = 4
SPECIFICATION Spec
INVARIANTS NeverTooMany BagsMatch CollectAfterAll CollectInOrder
PROPERTY EventuallyAnswers
