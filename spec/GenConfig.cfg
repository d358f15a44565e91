INIT GInit
NEXT GNext
VIEW View
CONSTANT Depth = 1
INVARIANTS BaseFine OrderFree NullIsNothing NumbersFree PhaseWise Once Out
CHECK_DEADLOCK FALSE
