SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 6
INVARIANT Tree Effective Found
PROPERTY Additive
