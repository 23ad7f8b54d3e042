SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Judge <- CalJudge
  Expected <- CalExpected
