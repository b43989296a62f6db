INIT Init
NEXT Next
CONSTANTS Name = "board" Depth = 12
INVARIANTS Printed
CHECK_DEADLOCK FALSE
