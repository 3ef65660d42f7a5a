SPECIFICATION Spec
INVARIANTS InvTree InvNode InvSeg InvSorted
VIEW tv
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
CONSTANTS
 XS <- MCX
 Rules <- MCRules
 MaxH = 7
 MaxOps = 4
 MaxIds = 12
 Emit = FALSE
