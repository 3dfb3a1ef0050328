SPECIFICATION Spec
INVARIANT NeverBelow
INVARIANT OpenRight
INVARIANT Attained
CHECK_DEADLOCK FALSE
