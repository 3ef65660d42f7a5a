SPECIFICATION Spec
INVARIANTS InvPartial InvResid InvCache InvTrees InvGfr InvMcmc
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
CONSTANTS
 Slots = {1}
 NT = 1
 Vals = {0, 1}
 Rules <- MCRules
 X <- MCX
 Y <- MCY
 W <- MCW
 FT <- MCFT
 ML = 1
 MaxIter = 2
 MaxH = 7
