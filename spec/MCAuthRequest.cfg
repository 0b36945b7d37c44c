SPECIFICATION Spec
INVARIANTS Works Authentic NoSecrets Fresh1
PROPERTY NoReplay
CHECK_DEADLOCK FALSE
