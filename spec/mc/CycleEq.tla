------------------------------ MODULE CycleEq ------------------------------
(***************************************************************************)
(* X02 for CycleMap: equality over all pairs of reachable contents.  For  *)
(* every state one line: the states equal to it, and the states the        *)
(* implementation calls equal (the same, unless there is a known finding). *)
(***************************************************************************)
EXTENDS CycleMap, TLC, Json
CONSTANTS NL, NR, NT
LK == 1..NL
RK == 1..NR
LI == LK \X (0..(NT - 1))
RI == RK \X (0..(NT - 1))

Grow(S) == S \cup {InsertSt(c, l, r) : c \in S, l \in LI, r \in RI}
RECURSIVE Close(_)
Close(S) == LET T == Grow(S) IN IF T = S THEN S ELSE Close(T)
States == Close({Empty})

\* two maps are equal iff no query by item can tell them apart
SameAnswers(a, b) ==
    /\ \A l \in LK, r \in RK : ArePaired(a, l, r) <=> ArePaired(b, l, r)
    /\ Len1(a) = Len1(b)

VARIABLE a
Init == a \in States
Next == UNCHANGED a
Spec == Init /\ [][Next]_a

X02 == \A b \in States :
    /\ MapEq(a, b) <=> SameAnswers(a, b)
    /\ MapEq(a, b) <=> MapEq(b, a)
Reflexive == MapEq(a, a)
ExportE == PrintT("E " \o ToJson(<<a, {b \in States : MapEq(a, b)}, {b \in States : MapEq(a, b)}>>))
=============================================================================
