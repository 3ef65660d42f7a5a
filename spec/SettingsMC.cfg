SPECIFICATION Spec
INVARIANTS InvMeaning InvGiven InvApart
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
CONSTANTS
 Kind = "bcf"
 Few = 1
 Fault = "none"
 Emit = FALSE
