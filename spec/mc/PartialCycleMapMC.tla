-------------------------- MODULE PartialCycleMapMC --------------------------
EXTENDS PartialCycleMapSM, TLC, Json
ExportT == PrintT("T " \o ToJson(<<m, ev'.op, ev'.a, ev'.r, m'>>))
ExportS == PrintT("S " \o ToJson(<<m, Obs(m, LK, RK)>>))
=============================================================================
