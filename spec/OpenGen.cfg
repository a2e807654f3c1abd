CONSTANTS BYTE = 8 ARCHIVE = "Mid" DAMAGE = {"ok", "nodata", "noschema", "hdr", "utf8", "sch"}
SPECIFICATION GSpec
INVARIANTS AllOrNothing Stored
CHECK_DEADLOCK FALSE
