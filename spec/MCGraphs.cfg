SPECIFICATION Spec
INVARIANT Handshake
PROPERTY Grows
CHECK_DEADLOCK FALSE
