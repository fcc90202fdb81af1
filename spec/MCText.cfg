SPECIFICATION Spec
VIEW View
INVARIANT Bounded
PROPERTY Frame
CHECK_DEADLOCK FALSE
