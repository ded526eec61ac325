SPECIFICATION Spec
INVARIANT Laws
INVARIANT Dump
CHECK_DEADLOCK FALSE
