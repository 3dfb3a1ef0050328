SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Loss
INVARIANT Total
INVARIANT Nearest
INVARIANT SelfCert
