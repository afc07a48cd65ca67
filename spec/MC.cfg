\* check.py sets Prop, Deep and Emit
SPECIFICATION Fair
CONSTANTS
  InputOf <- MCInput
  Prop = "@PROP@"
  Deep = @DEEP@
  Emit = TRUE
INVARIANTS
  Goes LoadProps ReportProps C15_InPlace C19_Rounded C21_Order C23_Where C24_Verdict C28_Calendar Dump
PROPERTY Ends
CHECK_DEADLOCK FALSE
