CONSTANTS Dim = 3
 Grid <- G3
 MaxOps = 0
INIT LawInit
NEXT LawNext
INVARIANT Laws
CHECK_DEADLOCK FALSE
