SPECIFICATION TraceSpec
CONSTRAINT Reached
POSTCONDITION ReportAll
CHECK_DEADLOCK FALSE
CONSTANT Note <- Collect
