SPECIFICATION Spec
CONSTRAINT Bound
VIEW View
PROPERTY StepHolds
INVARIANT Inv
CHECK_DEADLOCK FALSE
