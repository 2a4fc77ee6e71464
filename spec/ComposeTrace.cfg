SPECIFICATION Spec
CONSTANTS Guard = 64 Huge = 1073741824
VIEW View
CHECK_DEADLOCK FALSE
