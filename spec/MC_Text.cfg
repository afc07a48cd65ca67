INIT Init
NEXT Next
CONSTANTS
  CharsS = {"a", "B", "b", ":", " ", "ñ", "Ñ"}
  CharsT = {"a", "b", "B", ".", "*", "^", "$", "|", "\\", ":"}
  LenS = 2
  LenT = 2
INVARIANT Agree
CHECK_DEADLOCK FALSE
