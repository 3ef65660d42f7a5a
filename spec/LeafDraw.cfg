SPECIFICATION Spec
INVARIANTS InvCentre InvLimits
CHECK_DEADLOCK FALSE
CONSTANTS
MaxN = 3
Ys <- YVals
Ks = {1, 2}
Bs <- BVals
Taus = {1, 3}
Sigs = {0, 1, 2}
