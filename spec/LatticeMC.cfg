SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT C01_Alive
INVARIANT C04_Regions
INVARIANT C06_Magic
INVARIANT C07_Rotations
INVARIANT C20_Y
INVARIANT Emit
PROPERTY C01_Stay
PROPERTY C01_Free
PROPERTY C06_Made
