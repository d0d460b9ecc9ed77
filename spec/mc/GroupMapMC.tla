------------------------------ MODULE GroupMapMC -----------------------------
EXTENDS GroupMapSM, TLC, Json
\* transitions through the known defect of insert are marked X
ExportT == PrintT((IF KnownFinding(ev'.op, ev'.a) THEN "X " ELSE "T ")
                  \o ToJson(<<m, ev'.op, ev'.a, ev'.r, m'>>))
ExportS == PrintT("S " \o ToJson(<<m, Obs(m, LK, RK)>>))
\* what the defect shows, for the states and left items where insert reaches it
ExportD == \A x \in m.p : PrintT("D " \o ToJson(<<m, KP(x), DefectObs(m, K(x[1]), LK, RK)>>))
=============================================================================
