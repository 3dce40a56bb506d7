-------------------------------- MODULE MCNb ---------------------------------
EXTENDS BathyNb
=============================================================================
