-------------------------------- MODULE DocMC -------------------------------
EXTENDS Doc
View == dv
KeysDef == {<<"", "x">>, <<"s", "x">>, <<"s", "y">>}
OneDir == {<<"", "x">>, <<"s", "x">>}
=============================================================================
