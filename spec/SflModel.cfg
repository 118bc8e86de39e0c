SPECIFICATION Spec
INVARIANT OrderInv DistinctInv BoundsLaw
PROPERTY Laws
CHECK_DEADLOCK FALSE
