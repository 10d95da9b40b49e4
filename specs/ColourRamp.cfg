CONSTANTS FROM = 40
 TO = 1064
INIT Init
NEXT Next
INVARIANTS Valid Continuous Warming Named Ends HexRound
CHECK_DEADLOCK FALSE
