SPECIFICATION Spec
INVARIANT Mutual
INVARIANT Formed
INVARIANT Handshake
INVARIANT LastDiffers
CHECK_DEADLOCK FALSE
