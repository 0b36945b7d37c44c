SPECIFICATION Spec
INVARIANTS NothingForged Authorised Complete
PROPERTY StaysExpired
CHECK_DEADLOCK FALSE
