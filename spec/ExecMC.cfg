CONSTANT Deep = FALSE
SPECIFICATION Spec
INVARIANTS ValuesRight OnlyNeeded NothingIfRejected OverridesNeverRun DownstreamOfFailureNotRun ReturnedComplete
PROPERTY EventuallyAnswers
