SPECIFICATION Spec
CONSTANTS
  NF = 3
  Paths = {"p", "q"}
  Tables = {"s", "t"}
  Depth = 4
CONSTRAINT Small
INVARIANTS FaithfulMeans DropShows AlterShows LastSaved Isolated
CHECK_DEADLOCK FALSE
