SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS Agree Kept
CHECK_DEADLOCK FALSE
