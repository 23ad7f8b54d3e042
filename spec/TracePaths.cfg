SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Judge <- PathJudge
  Expected <- PathExpected
