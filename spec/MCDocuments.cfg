SPECIFICATION Spec
INVARIANTS Identity Readable Laws
CHECK_DEADLOCK FALSE
