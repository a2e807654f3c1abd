CONSTANTS BYTE = 8 ARCHIVE = "Vecs" DAMAGE = {"ok", "none", "sch"}
SPECIFICATION GSpec
INVARIANTS AllOrNothing Stored
CHECK_DEADLOCK FALSE
