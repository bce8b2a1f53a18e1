CONSTANT MaxLen = 2
SPECIFICATION Spec
INVARIANTS NeverTooMany BagsMatch CollectAfterAll CollectInOrder
PROPERTY EventuallyAnswers
