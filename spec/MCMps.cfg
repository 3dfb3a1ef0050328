SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Permuted
INVARIANT Tensor
INVARIANT MoveBack
INVARIANT Neighbours
