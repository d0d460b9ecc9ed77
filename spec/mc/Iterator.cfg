SPECIFICATION Spec
CONSTANTS
    Entries = {11, 12}
    MaxIts = 2
    MaxSteps = 3
INVARIANTS ExactlyOnce Accepted Rejects
PROPERTIES Fused LenTrue Separate
CHECK_DEADLOCK FALSE
