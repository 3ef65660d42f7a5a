SPECIFICATION Spec
INVARIANTS InvResid InvFlat InvGroups InvPredict
PROPERTIES PropAppend
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTransition
CONSTANTS
LabelSets <- LabelsMC
Bases <- BasesOne
Ys <- YsMC
Alphas <- AlphasMC
Xis <- XisMC
Others = {0, 1}
NSigs = 1
MaxOps = 3
Emit = FALSE
