SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS Agree Lifetimes Kept Order
CHECK_DEADLOCK FALSE
