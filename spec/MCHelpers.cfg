SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS DifferenceLaw SymmetricBags WithoutLaw PlacesLaw WaysLaw DigitsLaw AxisLaw DaggerLaw
