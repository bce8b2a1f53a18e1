CONSTANT NA = 1
SPECIFICATION Spec
INVARIANTS BodyWrapped GraphWraps AtEnd
PROPERTY Ends
