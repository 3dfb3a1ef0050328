SPECIFICATION Spec
INVARIANT WellDrawn
INVARIANT Valid
INVARIANT TorusLaw
INVARIANT TriangleLaw
CHECK_DEADLOCK FALSE
