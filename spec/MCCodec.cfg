SPECIFICATION Spec
INVARIANTS RoundTrip PrefixFree Bounded Attained Sound Shared
CHECK_DEADLOCK FALSE
