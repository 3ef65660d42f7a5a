------------------------------ MODULE TrackerMC -----------------------------
EXTENDS Tracker
MCX == {<<<<a, 0>>, <<b, SC>>, <<c, 0>>>> : a, b, c \in {0, SC}} \cup {<<<<0, SC>>, <<0, 0>>, <<SC, 0>>, <<-SC, SC>>>>}
MCRules == {Num(0, 0), Num(1, 0), Cat(1, {1}), Num(0, -2*SC)}
=============================================================================
