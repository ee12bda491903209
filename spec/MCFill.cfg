SPECIFICATION Spec
INVARIANT Refines
CHECK_DEADLOCK FALSE
