SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Sim = FALSE
  Depth = 3
  Ops = {"build", "join", "merge", "fuse", "copy", "settag", "runs", "channels"}
  MaxT = 2
  Pers = {1}
  Sizes = {2}
  MaxHeap = 3
INVARIANT AllOK
PROPERTY Isolated
VIEW View
