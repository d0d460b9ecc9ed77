----------------------------- MODULE CycleMapMC ------------------------------
EXTENDS CycleMapSM, TLC, Json
\* Export: every transition of the bounded model, and the observation of every state.
ExportT == PrintT("T " \o ToJson(<<m, ev'.op, ev'.a, ev'.r, m'>>))
ExportS == PrintT("S " \o ToJson(<<m, Obs(m, LK, RK)>>))
=============================================================================
