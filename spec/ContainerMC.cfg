SPECIFICATION Spec
INVARIANTS InvOwned InvContent
PROPERTY AppendOnly
VIEW view
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxSamples = 3
 MaxOps = 6
 Emit = FALSE
 KeepsRoot = TRUE
