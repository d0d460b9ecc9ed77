SPECIFICATION Spec
CONSTANTS NL = 3 NR = 3 Variant = ""
VIEW View
INVARIANT Representation NoHistory SameObs LegalContents
PROPERTY NoFailure Refines
CHECK_DEADLOCK FALSE
