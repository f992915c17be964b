SPECIFICATION Spec
INVARIANTS Once Ordered Faithful Ends Progress Sharp Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
