------------------------------- MODULE MovesMC ------------------------------
EXTENDS Moves
Rows2 == <<<<0, 0>>, <<0, 2>>, <<1, 0>>, <<1, 1>>, <<3, 2>>>>
Rows3 == <<<<0, 0, 0>>, <<0, 1, 1>>, <<1, 0, 1>>, <<1, 1, 0>>, <<2, 1, 2>>, <<0, 0, 1>>>>
Rows4 == <<<<0, 0>>, <<0, 1>>, <<1, 0>>, <<2, 2>>, <<2, 0>>, <<3, 3>>, <<3, 1>>>>
W2 == <<1, 2>>
W3 == <<1, 0, 2>>
=============================================================================
