SPECIFICATION Spec
INVARIANT Room
INVARIANT Fresh
INVARIANT Lengths
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
