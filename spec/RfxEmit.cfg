SPECIFICATION EmitSpec
INVARIANTS InvFlat InvGroups InvPredict
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTransition
CONSTANTS
LabelSets <- LabelsEmit
Bases <- BasesEmit
Ys <- YsEmit
Alphas <- AlphasEmit
Xis <- XisEmit
Others = {0}
NSigs = 1
MaxOps = 5
Emit = TRUE
