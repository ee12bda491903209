SPECIFICATION Spec
VIEW View
INVARIANT Refines
CHECK_DEADLOCK FALSE
