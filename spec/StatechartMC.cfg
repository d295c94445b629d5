SPECIFICATION MCSpec
CONSTRAINT Bounded
ACTION_CONSTRAINT Checked
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Note <- NoNote
