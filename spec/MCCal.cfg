SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLines = 5
  Freqs = {2, 4, 7}
  Moduli = {3}
  Phases = {0, 90}
  MaxRows = 0
  Mode = "metronix"
INVARIANTS SectionRight MetronixRight Apart
