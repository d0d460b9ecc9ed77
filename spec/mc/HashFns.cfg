INIT Init
NEXT Next
INVARIANT ExportH
CHECK_DEADLOCK FALSE
