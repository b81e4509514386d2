SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Theorems Case
