SPECIFICATION Spec
INVARIANT Pure
INVARIANT Frozen
CHECK_DEADLOCK FALSE
