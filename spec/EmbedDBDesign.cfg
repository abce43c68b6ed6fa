SPECIFICATION Spec
VIEW View
INVARIANT Correct
INVARIANT Emit
CHECK_DEADLOCK FALSE
