SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Judge <- FourierJudge
  Expected <- FourierExpected
