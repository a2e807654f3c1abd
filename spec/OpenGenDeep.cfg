CONSTANTS BYTE = 8 ARCHIVE = "Deep" DAMAGE = {"ok", "sch"}
SPECIFICATION GSpec
INVARIANTS AllOrNothing Stored
CHECK_DEADLOCK FALSE
