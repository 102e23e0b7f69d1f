SPECIFICATION Spec
CONSTRAINT Bound
VIEW View
PROPERTY StepHolds
CHECK_DEADLOCK FALSE
