SPECIFICATION Spec
CONSTANTS NL = 3 NR = 3 NT = 1 SeqLen = 1
VIEW View
INVARIANT Inv ExportS
ACTION_CONSTRAINT ExportT
PROPERTY PropP02 PropP03 PropP04 PropP05 PropP06 PropX04 PropX05 PropX08 PropX09 PropAllowed
CHECK_DEADLOCK FALSE
