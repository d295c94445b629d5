SPECIFICATION TraceSpec
CONSTANT MaxThread = 4
CONSTRAINT Reached
INVARIANT Ok
POSTCONDITION Report
CHECK_DEADLOCK FALSE
