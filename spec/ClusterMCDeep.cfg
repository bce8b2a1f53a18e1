CONSTANTS Deep = FALSE
 Small = FALSE
SPECIFICATION Spec
INVARIANTS ValuesRight OnlyNeeded NothingIfRejected OverridesNeverRun DownstreamOfFailureNotRun ReturnedComplete OnlySentRuns SentIsNeeded
PROPERTIES RefinesExec EventuallyAnswers
CHECK_DEADLOCK FALSE
