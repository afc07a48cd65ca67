SPECIFICATION Spec
CONSTANTS
  Deep = @DEEP@
  Emit = TRUE
INVARIANTS Agrees BlanksMeanNothing CommentsMeanNothing Conserved Dump
PROPERTY Ends
CHECK_DEADLOCK FALSE
