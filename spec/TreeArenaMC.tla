---------------------------- MODULE TreeArenaMC -----------------------------
(* bounded instance: one tree, heap positions up to MaxHeap, one numeric and one categorical rule *)
EXTENDS TreeArena
MCRules == {Num(0, 5 * SC), Cat(1, {1, 2})}
=============================================================================
