SPECIFICATION Spec
INVARIANTS InvRoute InvMissing InvEmit
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxDepth = 2
 Rules <- MCRules
 Grid0 <- MCGrid0
 Grid1 <- MCGrid1
 Emit = FALSE
