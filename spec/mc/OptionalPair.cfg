SPECIFICATION Spec
CONSTANTS NV = 3
VIEW View
INVARIANT Conversions ExportS ExportN
ACTION_CONSTRAINT ExportT
PROPERTY PropX10
CHECK_DEADLOCK FALSE
