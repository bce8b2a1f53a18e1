CONSTANT NA = 2
SPECIFICATION Spec
INVARIANTS BodyWrapped GraphWraps AtEnd
PROPERTY Ends
