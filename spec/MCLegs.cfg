SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Legal StaysCoherent MentionsDistinct OneEnd Commutes CopyThenContract Reflexive Discerns
