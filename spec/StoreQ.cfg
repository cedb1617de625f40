SPECIFICATION Spec
CONSTANTS
  Depth = 6
  MaxIds = 6
  MaxBlock = 3
  MaxSize = 16
VIEW View
INVARIANT Partition Room
CHECK_DEADLOCK FALSE
