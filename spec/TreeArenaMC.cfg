SPECIFICATION ASpec
INVARIANTS InvWell InvAbs InvLists InvFree
VIEW view
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTransition
CONSTANTS
 TreeIds = {0}
 MaxHeap = 7
 Rules <- MCRules
 Vals = {1}
 MaxOps = 8
 Emit = FALSE
