SPECIFICATION MCSpec
CONSTANT MaxThread = 2
INVARIANT NoBad
PROPERTY Serviced
CHECK_DEADLOCK FALSE
