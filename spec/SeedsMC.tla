------------------------------- MODULE SeedsMC ------------------------------
EXTENDS Seeds
View == sv
=============================================================================
