CONSTANT Deep = TRUE
SPECIFICATION Spec
INVARIANTS ValuesRight OnlyNeeded NothingIfRejected OverridesNeverRun DownstreamOfFailureNotRun ReturnedComplete
PROPERTY EventuallyAnswers
