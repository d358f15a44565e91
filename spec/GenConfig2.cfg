INIT GInit
NEXT GNext
VIEW View
CONSTANT Depth = 2
INVARIANTS BaseFine OrderFree NullIsNothing NumbersFree PhaseWise Once Out
CHECK_DEADLOCK FALSE
