SPECIFICATION Spec
INVARIANTS Determined Coherent Independent Strict Defaults Emit
CHECK_DEADLOCK FALSE
