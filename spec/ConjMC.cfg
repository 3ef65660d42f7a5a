SPECIFICATION Spec
CONSTANTS
  Vals <- ValsMC
  Effects <- EffectsMC
  Treatments = {0, 1}
  MaxSeen = 3
  HalfOfData = 1
  HalfOfPrior = FALSE
  Shape2 = 3
  Scale2 = 5
INVARIANT InvLaw
INVARIANT InvOrder
INVARIANT InvApart
INVARIANT InvCodes
CHECK_DEADLOCK FALSE
