SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Judge <- TonesJudge
  Expected <- TonesExpected
