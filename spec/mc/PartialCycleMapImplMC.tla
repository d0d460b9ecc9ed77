------------------------ MODULE PartialCycleMapImplMC ------------------------
EXTENDS PartialCycleMapImplSM
=============================================================================
