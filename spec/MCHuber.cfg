SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  M = 4
  ScaleNum <- SmallNum
  ScaleDen <- SmallDen
INVARIANT Laws
