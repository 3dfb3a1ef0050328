SPECIFICATION Spec
INVARIANT HeapConsistent
INVARIANT Conserved
CHECK_DEADLOCK FALSE
