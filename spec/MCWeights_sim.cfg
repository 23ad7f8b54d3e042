SPECIFICATION SimSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind <- KindDef
  Inner <- InnerDef
  Chains <- ChainsDef
  Data = {"d1", "d2", "d3"}
  MaxIt = 3
  MaxHist = 6
  Reset = TRUE
  Sim = TRUE
INVARIANT OwnAnswers Emit

