SPECIFICATION Spec
INVARIANT Lifetimes Both Foreign
PROPERTY Lasting Configured
CHECK_DEADLOCK FALSE
