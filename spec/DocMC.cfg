SPECIFICATION Spec
PROPERTY StepHolds
INVARIANT Inv
CHECK_DEADLOCK FALSE
