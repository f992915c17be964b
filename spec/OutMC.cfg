SPECIFICATION Spec
INVARIANTS Telling Kinds Once Emit
CHECK_DEADLOCK FALSE
