INIT Init
NEXT Next
INVARIANTS NothingExpiredServed CacheCurrent AnsweredOnce NothingEternalKept Monotone
PROPERTY LookupStep
CHECK_DEADLOCK FALSE
