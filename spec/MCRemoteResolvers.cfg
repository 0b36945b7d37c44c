SPECIFICATION Spec
INVARIANT Agrees NoInvention OnceEach LocalOnlyIfUndecided
PROPERTY Terminates
CHECK_DEADLOCK FALSE
