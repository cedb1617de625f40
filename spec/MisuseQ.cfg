SPECIFICATION Spec
CONSTANTS
  Model = "Misuse"
  Depth = 6
  Big = FALSE
VIEW View
INVARIANT Inv
PROPERTIES Independent KeptStable ProgramStable Refused
CHECK_DEADLOCK FALSE
