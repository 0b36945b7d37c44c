SPECIFICATION Spec
INVARIANTS Narrowing OrderIndependent ConflictsStay Idempotent Stable
CHECK_DEADLOCK FALSE
