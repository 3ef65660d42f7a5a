SPECIFICATION Spec
INVARIANTS InvLayout InvFaithful InvOneHot
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTransition
CONSTANTS
Langs = {"py", "r"}
Kinds = {"num", "ord", "cat", "skip"}
NCols = 2
Vals = {0, 1, 2}
MaxOps = 4
Emit = FALSE
