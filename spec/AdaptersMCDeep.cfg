SPECIFICATION Spec
CONSTANTS K = 3
 ItemsMax = 3
 BlockBooms = {"b@i1", "c@i2", "c@S", "col"}
 Wide = {TRUE, FALSE}
 LErrs = {"", "E", "E1"}
 AllAcc = FALSE
INVARIANTS Transparent CaughtStays OutcomeTotal NeverFed Once Keeps Fails
CHECK_DEADLOCK FALSE
