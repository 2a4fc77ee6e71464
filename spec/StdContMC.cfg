SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS Agree Sound Kept
CHECK_DEADLOCK FALSE
