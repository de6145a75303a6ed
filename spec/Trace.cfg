SPECIFICATION TraceSpec
POSTCONDITION Accepted
ALIAS Alias
CHECK_DEADLOCK FALSE
