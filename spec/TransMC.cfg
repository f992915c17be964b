SPECIFICATION Spec
INVARIANTS Full Accepts Discriminates Emit
CHECK_DEADLOCK FALSE
