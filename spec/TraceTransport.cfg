INIT TraceInit
NEXT TraceNext
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK TRUE
