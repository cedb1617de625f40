SPECIFICATION Spec
CONSTANTS
  Model = "Tapes"
  Depth = 7
  Big = FALSE
VIEW View
INVARIANT Inv
PROPERTIES Independent KeptStable ProgramStable Refused
CHECK_DEADLOCK FALSE
