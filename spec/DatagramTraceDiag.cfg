SPECIFICATION TraceSpec
CONSTRAINT Progress
POSTCONDITION Reached1
CHECK_DEADLOCK FALSE
