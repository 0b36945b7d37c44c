SPECIFICATION Spec
INVARIANT Authentic OnlyVouched OnePurpose Complete
CHECK_DEADLOCK FALSE
