SPECIFICATION TraceSpec
VIEW View
INVARIANT DesignHolds
CHECK_DEADLOCK FALSE
