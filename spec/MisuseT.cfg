SPECIFICATION Spec
CONSTANTS
  Model = "Misuse"
  Depth = 7
  Big = TRUE
VIEW View
INVARIANT Inv
PROPERTIES Independent KeptStable ProgramStable Refused
CHECK_DEADLOCK FALSE
