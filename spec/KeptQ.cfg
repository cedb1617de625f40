SPECIFICATION Spec
CONSTANTS
  Model = "Kept"
  Depth = 6
  Big = FALSE
VIEW View
INVARIANT Inv
PROPERTIES Independent KeptStable ProgramStable Refused
CHECK_DEADLOCK FALSE
