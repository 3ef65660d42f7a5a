SPECIFICATION Spec
INVARIANT InvHeld
VIEW View
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
CONSTANTS
 Cells = 5
 Values = {0, 1}
 MaxN = 2
 MaxP = 2
 Fields = {"X", "B"}
 MaxOps = 3
 Emit = FALSE
