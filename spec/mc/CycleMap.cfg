SPECIFICATION Spec
CONSTANTS NL = 3 NR = 3 NT = 1 SeqLen = 2
VIEW View
INVARIANT Inv ExportS
ACTION_CONSTRAINT ExportT
PROPERTY PropC02 PropC03 PropC04 PropC05 PropX04 PropX05 PropX06 PropX08 PropX09 PropAllowed
CHECK_DEADLOCK FALSE
