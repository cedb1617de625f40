SPECIFICATION Spec
CONSTANTS MaxL = 12 MaxC = 4
INVARIANTS NothingCheaper Safe
CHECK_DEADLOCK FALSE
