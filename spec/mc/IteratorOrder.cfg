SPECIFICATION Spec
CONSTANTS
    Entries = {11, 12, 13}
    MaxIts = 2
    MaxSteps = 4
INVARIANTS NeverRejected Simulates SizesDecided
CHECK_DEADLOCK FALSE
