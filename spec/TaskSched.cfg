CONSTANTS MaxItems = 2
 MaxRejects = 2
SPECIFICATION Spec
INVARIANTS DepsFirst RunsOnlyProvisioned ReturnedMeansAll ReleasedAtEnd FailureReported
PROPERTIES NoHandoutAfterFailure Terminates
