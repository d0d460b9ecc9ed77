SPECIFICATION Spec
CONSTANTS
    MaxLen = 4
    Amounts = {0, 1, 4}
VIEW View
CONSTRAINT Small
INVARIANTS SizesLegal
PROPERTIES LeftForBoth
CHECK_DEADLOCK FALSE
