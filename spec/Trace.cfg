SPECIFICATION Spec
INVARIANT Compared
VIEW View
CHECK_DEADLOCK FALSE
