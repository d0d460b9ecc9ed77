SPECIFICATION Spec
CONSTANTS NL = 3 NR = 3 NT = 1
INVARIANT X02 Reflexive ExportE
CHECK_DEADLOCK FALSE
