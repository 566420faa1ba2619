SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Membership Trichotomy OverlapSymmetric SubsetSound SubsetOrder StrictWeakOrder
CHECK_DEADLOCK FALSE
