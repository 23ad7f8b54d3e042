SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxStart = 3
  Pers = {1, 2}
  MaxN = 3
  MaxRuns = 2
  Arity = 1
  Mode = "one"
INVARIANT ChannelsRight
