--------------------------- MODULE CycleMapImplMC ----------------------------
EXTENDS CycleMapImplSM
=============================================================================
