SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Judge <- WeightsJudge
  Expected <- WeightsExpected
