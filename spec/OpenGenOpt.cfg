CONSTANTS BYTE = 8 ARCHIVE = "Opt" DAMAGE = {"ok", "hdr"}
SPECIFICATION GSpec
INVARIANTS AllOrNothing Stored
CHECK_DEADLOCK FALSE
