SPECIFICATION Spec
VIEW View
PROPERTY StepHolds
INVARIANT Inv
CHECK_DEADLOCK FALSE
