SPECIFICATION Spec
VIEW View
INVARIANTS Holds StillRich Emit
CHECK_DEADLOCK FALSE
