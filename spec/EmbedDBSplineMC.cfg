SPECIFICATION Spec
INVARIANT Bracketed
INVARIANT Bounded
INVARIANT Emit
CHECK_DEADLOCK FALSE
