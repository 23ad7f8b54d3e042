SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Judge <- ValuesJudge
  Expected <- ValuesExpected
