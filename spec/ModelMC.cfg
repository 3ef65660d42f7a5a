CONSTANTS
  NF = 1
  MaxG = 2
  MaxB = 2
  MaxM = 2
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS InvKeep InvSamples InvCurrent
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTransition
