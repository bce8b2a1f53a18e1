CONSTANTS Deep = FALSE
 Small = TRUE
SPECIFICATION Spec
INVARIANTS ValuesRight OnlyNeeded NothingIfRejected OverridesNeverRun DownstreamOfFailureNotRun ReturnedComplete OnlySentRuns SentIsNeeded
PROPERTIES RefinesExec EventuallyAnswers
CHECK_DEADLOCK FALSE
