SPECIFICATION Spec
INVARIANT AlwaysLegal
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
