SPECIFICATION Spec
CONSTANTS
  Alphabet = {0, 1, 2}
VIEW View
INVARIANTS TypeOK Holds Moves
CHECK_DEADLOCK FALSE
