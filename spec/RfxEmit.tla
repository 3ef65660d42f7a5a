------------------------------- MODULE RfxEmit ------------------------------
(* behaviours of recording, changing parameters and reloading, printed for replay on the code *)
EXTENDS Rfx
XisEmit == {0 - 1, 2}
AlphasEmit == {0 - 1, 2}
LabelsEmit == {<<5, 0 - 3, 5>>}
BasesEmit == {<<<<1>>, <<2>>, <<0 - 1>>>>}
YsEmit == {<<3, 0 - 1, 2>>}
EmitNext == SetParams \/ Store \/ Reload
EmitSpec == Init /\ [][EmitNext]_<<rv, hist>>
View == rv
=============================================================================
