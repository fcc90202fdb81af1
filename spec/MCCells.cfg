SPECIFICATION Spec
VIEW View
INVARIANTS Apart Still Whole Waits Back Once
CHECK_DEADLOCK FALSE
