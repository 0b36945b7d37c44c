SPECIFICATION Spec
INVARIANTS TypeOK NoLoops Complete Sound NothingTrustedWithoutAnchor
PROPERTY Termination
CHECK_DEADLOCK TRUE
