SPECIFICATION Spec
INVARIANTS InvScan InvBins
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxN = 5
 VMax = 3
 Outs = {0, 1, 3}
 Grids = {1, 2, 3, 5}
