SPECIFICATION Spec
INVARIANT Alone
CHECK_DEADLOCK FALSE
