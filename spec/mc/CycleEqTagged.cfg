SPECIFICATION Spec
CONSTANTS NL = 2 NR = 2 NT = 2
INVARIANT X02 Reflexive ExportE
CHECK_DEADLOCK FALSE
