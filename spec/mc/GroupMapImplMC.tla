--------------------------- MODULE GroupMapImplMC ----------------------------
EXTENDS GroupMapImplSM
=============================================================================
