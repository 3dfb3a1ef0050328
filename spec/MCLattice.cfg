SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT RightCorner
INVARIANT EvenLaw
INVARIANT Blocked
INVARIANT Turned
INVARIANT Twisted
INVARIANT TwoSites
INVARIANT Moments
