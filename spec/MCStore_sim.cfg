SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Sim = TRUE
  Depth = 12
  Ops = {"build", "join", "merge", "extract", "channels", "runs", "fuse", "copy", "settag", "deltag", "retag", "inv", "append", "add", "iextract", "ichannels", "pack", "joinmerge", "igroups", "iquery"}
  MaxT = 8
  Pers = {1, 2}
  Sizes = {1, 2, 3, 5}
  MaxHeap = 8
INVARIANT AllOK Emit
