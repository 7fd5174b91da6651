INIT TraceInit
NEXT TraceNext
INVARIANT NoDuplicates
PROPERTY Steps
CHECK_DEADLOCK TRUE
