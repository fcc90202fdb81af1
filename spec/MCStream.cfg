SPECIFICATION Spec
VIEW View
INVARIANTS Written Untouched Carried Consumed
CHECK_DEADLOCK FALSE
