SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 5
  M = 4
  ScaleNum <- SmallNum
  ScaleDen <- SmallDen
INVARIANT Laws
