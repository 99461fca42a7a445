CONSTANT PROP = "C01"
INIT TraceInit
NEXT TraceNext
INVARIANT Holds
INVARIANT Consumed
ALIAS Alias
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
