SPECIFICATION Spec
INVARIANTS InvValues InvForests
PROPERTY Independent
VIEW View
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
CONSTANTS
 Docs = {0, 1}
 Keys <- OneDir
 Types = {"num", "svec"}
 Vals = {1}
 Forests = {1, 2}
 MaxOps = 5
 Emit = FALSE
