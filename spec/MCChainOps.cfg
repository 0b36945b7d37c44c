SPECIFICATION Spec
INVARIANT Commute Intersection Idempotent ShortestUsable MinIsMax Expires SortFilter
CHECK_DEADLOCK FALSE
