SPECIFICATION Spec
CONSTANTS
Rows <- Rows2
Weights <- W2
AlphaN = 1
AlphaD = 2
Beta = 1
MinLeaf = 1
Variant = "right"
INVARIANT InvBalanced
INVARIANT InvSizes
INVARIANT InvFree
INVARIANT InvFresh
CHECK_DEADLOCK FALSE
