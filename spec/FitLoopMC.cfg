SPECIFICATION Spec
CONSTANTS
  Vals <- Small
  Codes <- CodeSet
  Outcome = 5
INVARIANTS InvLeft InvHeld
CHECK_DEADLOCK FALSE
