SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Judge <- MEstJudge
  Expected <- MEstExpected
