SPECIFICATION MCSpec
CONSTANT MaxThread = 2
INVARIANT NoBad
VIEW View
CHECK_DEADLOCK FALSE
