SPECIFICATION Spec
INVARIANTS InvDisjoint InvKernel InvEmit
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxTrees = 2
 MaxDepth = 2
 Emit = FALSE
