SPECIFICATION TraceSpec
CONSTANT InputOf <- TraceInput
CHECK_DEADLOCK FALSE
INVARIANT Loaded
