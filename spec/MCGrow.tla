-------------------------------- MODULE MCGrow --------------------------------
EXTENDS BathyGrow
NegXS == {-2, 0, 1, 3}
NegYS == {-1, 2, 4}
=============================================================================
