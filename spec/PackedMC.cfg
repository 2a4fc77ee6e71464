SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS Agree Fits
CHECK_DEADLOCK FALSE
