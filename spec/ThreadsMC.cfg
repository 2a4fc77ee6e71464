SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS Sound Found
CHECK_DEADLOCK FALSE
