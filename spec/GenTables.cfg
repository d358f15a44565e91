INIT GInit
NEXT GNext
INVARIANT Laws
CHECK_DEADLOCK FALSE
