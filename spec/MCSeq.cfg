SPECIFICATION Spec
CONSTANTS
  Caps = {0, 1, 2, 3}
  MaxLen = 3
  Gen = TRUE
VIEW View
INVARIANTS Bounded OnePlace Living
PROPERTIES Frame Fifo OnlyDiscardLoses
CHECK_DEADLOCK FALSE
