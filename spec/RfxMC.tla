-------------------------------- MODULE RfxMC -------------------------------
EXTENDS Rfx
XisMC == {0 - 1, 0, 2}
AlphasMC == {0 - 1, 2}
LabelsMC == {<<5, 3>>, <<7, 7, 1>>}
LabelsOne == {<<5, 0 - 3, 5>>}
BasesOne == {<<<<1>>, <<2>>, <<0 - 1>>>>, <<<<1>>, <<2>>>>}
BasesTwo == {<<<<1, 2>>, <<0, 0 - 1>>>>}
YsMC == {<<3, 1>>, <<3, 0 - 1, 2>>}
View == rv
=============================================================================
