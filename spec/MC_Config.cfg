SPECIFICATION CSpec
CONSTANTS
  InputOf <- CInput
  Deep = @DEEP@
  Emit = TRUE
INVARIANTS AsMeant CliWins OneFile AsGiven Dump
PROPERTY Ends
CHECK_DEADLOCK FALSE
