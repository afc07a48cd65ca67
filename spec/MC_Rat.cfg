INIT Init
NEXT Next
CONSTANTS
  MaxN = 40
  MaxD = 12
INVARIANT Agree
CHECK_DEADLOCK FALSE
