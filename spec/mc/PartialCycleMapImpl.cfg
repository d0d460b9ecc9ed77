SPECIFICATION Spec
CONSTANTS NL = 2 NR = 2 Variant = ""
VIEW View
INVARIANT Representation NoHistory SameObs LegalContents
PROPERTY NoFailure Refines
CHECK_DEADLOCK FALSE
