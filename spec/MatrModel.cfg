CONSTANTS MaxOps = 0
 Grid <- G2
INIT LawInit
NEXT LawNext
INVARIANT Laws
CHECK_DEADLOCK FALSE
