SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Sane
INVARIANT Emit
PROPERTY OrderKept
