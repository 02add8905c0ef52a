SPECIFICATION Spec
INVARIANTS Disjoint Apart Bounded
CHECK_DEADLOCK FALSE
