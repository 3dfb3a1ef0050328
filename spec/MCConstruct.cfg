SPECIFICATION Spec
INVARIANT WellFormed
INVARIANT Redundant
INVARIANT DiagIsDense
CHECK_DEADLOCK FALSE
