SPECIFICATION Spec
CONSTANTS
Runs = {1, 2}
Keys = {1, 2}
MaxOps = 7
MaxSteps = 3
Shared = FALSE
Borrow = FALSE
Emit = FALSE
VIEW View
INVARIANT InvSame
INVARIANT InvKnown
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
