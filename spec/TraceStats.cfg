SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Judge <- StatsJudge
  Expected <- StatsExpected
