SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Judge <- ImpJudge
  Expected <- ImpExpected
