INIT Init
NEXT Next
INVARIANT Exact
INVARIANT Bounded
CHECK_DEADLOCK TRUE
