SPECIFICATION Spec
CONSTANTS
    MaxLen = 8
    Amounts = {0, 1, 3, 8}
VIEW View
CONSTRAINT Small
INVARIANTS SizesLegal
PROPERTIES Sides Smallest
CHECK_DEADLOCK FALSE
