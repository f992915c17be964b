SPECIFICATION Spec
INVARIANTS Reads Refuses WritesBack Emit
CHECK_DEADLOCK FALSE
