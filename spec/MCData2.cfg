SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 8
INVARIANT Tree Effective Found
PROPERTY Additive
