SPECIFICATION Spec
INVARIANT Together
PROPERTY Steps
CHECK_DEADLOCK FALSE
