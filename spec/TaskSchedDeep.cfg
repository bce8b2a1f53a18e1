CONSTANTS MaxItems = 5
 MaxRejects = 4
SPECIFICATION Spec
INVARIANTS DepsFirst RunsOnlyProvisioned ReturnedMeansAll ReleasedAtEnd FailureReported
PROPERTIES NoHandoutAfterFailure Terminates
