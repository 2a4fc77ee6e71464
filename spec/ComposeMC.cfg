SPECIFICATION Spec
CONSTANTS Guard = 64 Huge = 1073741824 
VIEW View
ACTION_CONSTRAINT Edge
INVARIANT Inv
CHECK_DEADLOCK FALSE
