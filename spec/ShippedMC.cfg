SPECIFICATION Spec
CONSTANTS
  NF = 2
  Paths = {"p", "q"}
  Tables = {"s", "t"}
  Depth = 3
CONSTRAINT Small
INVARIANTS FaithfulMeans DropShows AlterShows LastSaved Isolated
CHECK_DEADLOCK FALSE
