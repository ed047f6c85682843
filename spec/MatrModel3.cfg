CONSTANTS MaxOps = 0
 Grid <- G3
INIT LawInit
NEXT LawNext
INVARIANT Laws
CHECK_DEADLOCK FALSE
