SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT FlipSymmetric
INVARIANT NoOrder
INVARIANT Leaf
INVARIANT Isolated
INVARIANT Loop
