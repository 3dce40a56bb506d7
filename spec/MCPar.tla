-------------------------------- MODULE MCPar --------------------------------
EXTENDS BathyPar
=============================================================================
