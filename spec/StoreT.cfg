SPECIFICATION Spec
CONSTANTS
  Depth = 9
  MaxIds = 7
  MaxBlock = 4
  MaxSize = 32
VIEW View
INVARIANT Partition Room
CHECK_DEADLOCK FALSE
