SPECIFICATION Spec
CONSTANTS MaxL = 9 MaxC = 3
INVARIANTS NothingCheaper Safe
CHECK_DEADLOCK FALSE
