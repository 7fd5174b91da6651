INIT TraceInit
NEXT TraceNext
PROPERTY Steps
CHECK_DEADLOCK TRUE
