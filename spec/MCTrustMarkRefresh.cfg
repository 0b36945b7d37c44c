INIT Init
NEXT Next
INVARIANT AllRules
CHECK_DEADLOCK FALSE
