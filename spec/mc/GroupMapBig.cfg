SPECIFICATION Spec
CONSTANTS NL = 4 NR = 3 NT = 1 SeqLen = 1
VIEW View
INVARIANT Inv ExportS ExportD
ACTION_CONSTRAINT ExportT
PROPERTY PropG02 PropG03 PropG04 PropG05 PropX04 PropX05 PropX08 PropAllowed
CHECK_DEADLOCK FALSE
