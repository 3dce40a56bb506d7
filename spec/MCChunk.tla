------------------------------- MODULE MCChunk -------------------------------
EXTENDS BathyChunk
=============================================================================
