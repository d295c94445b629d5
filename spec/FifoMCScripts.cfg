SPECIFICATION MCSpec
CONSTANT MaxThread = 0
INVARIANT NoBad
ACTION_CONSTRAINT Printed
VIEW View
CHECK_DEADLOCK FALSE
