SPECIFICATION Spec
INVARIANTS InvOffered InvComplete InvProposed
CHECK_DEADLOCK FALSE
CONSTANTS
MaxN = 3
VMax = 2
Ys = {0, 1}
Ks = {1, 2}
Bs <- BasisConst
MinLeaf = 1
