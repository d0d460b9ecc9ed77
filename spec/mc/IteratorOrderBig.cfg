SPECIFICATION Spec
CONSTANTS
    Entries = {11, 12, 13}
    MaxIts = 3
    MaxSteps = 5
INVARIANTS NeverRejected Simulates SizesDecided
CHECK_DEADLOCK FALSE
