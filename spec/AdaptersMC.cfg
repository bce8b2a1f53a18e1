SPECIFICATION Spec
CONSTANTS K = 2
 ItemsMax = 2
 BlockBooms = {"b@i1", "c@i2"}
 Wide = {TRUE}
 LErrs = {"", "E", "E2"}
 AllAcc = FALSE
INVARIANTS Transparent CaughtStays OutcomeTotal NeverFed Once Keeps Fails
CHECK_DEADLOCK FALSE
