SPECIFICATION Spec
VIEW View
PROPERTY StepHolds
PROPERTY Monotonic
PROPERTY Atomic
PROPERTY Stages
PROPERTY Behalf
PROPERTY Foreign
PROPERTY ServicesRead
INVARIANT WellBound
INVARIANT WellFormed
CHECK_DEADLOCK FALSE
