----------------------------- MODULE CutpointsMC ----------------------------
EXTENDS Cutpoints
=============================================================================
