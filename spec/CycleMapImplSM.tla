--------------------------- MODULE CycleMapImplSM ----------------------------
(***************************************************************************)
(* CycleMap's design refines its specification, for every hash function.   *)
(***************************************************************************)
EXTENDS CycleMapImpl

CONSTANTS NL, NR
VARIABLES d, ev

A == INSTANCE CycleMap

LK == 1..NL
RK == 1..NR
LI == LK \X {0}
RI == RK \X {0}
m == Abs(d)
Pairs == {KP(x) : x \in IIter(d)}

\* Identifiers are renamed after each step, so that there are finitely many states.
Renamed(dd) ==
    IF ~Represents(dd) THEN dd
    ELSE [l |-> Canon(dd).l, r |-> Canon(dd).r, n |-> NL + 1]

Do(op, a) ==
    LET o == Run(d, op, a)
    IN  /\ d' = (IF o.ok THEN Renamed(o.d) ELSE d)
        /\ ev' = [op |-> op, a |-> a, r |-> o.r, ok |-> o.ok]

Init == /\ hl \in HashFns(NL) /\ hr \in HashFns(NR)
        /\ d = Start /\ ev = [op |-> "new", a |-> <<>>, r |-> <<>>, ok |-> TRUE]
Next ==
    /\ UNCHANGED <<hl, hr>>
    /\ \/ \E l \in LI, r \in RI : Do("insert", <<l, r>>)
       \/ \E l \in LK, r \in RK : Do("remove", <<l, r>>)
       \/ \E l \in LK : Do("remove_via_left", <<l>>)
       \/ \E r \in RK : Do("remove_via_right", <<r>>)
       \/ \E o \in LK, n \in LI : Do("swap_left", <<o, n>>)
       \/ \E o \in RK, n \in RI : Do("swap_right", <<o, n>>)
       \/ \E o \in LK, x \in RK, n \in LI : Do("swap_left_checked", <<o, x, n>>)
       \/ \E o \in RK, x \in LK, n \in RI : Do("swap_right_checked", <<o, x, n>>)
       \/ \E o \in LK, n \in LI, r \in RI : Do("swap_left_or_insert", <<o, n, r>>)
       \/ \E o \in RK, n \in RI, l \in LI : Do("swap_right_or_insert", <<o, n, l>>)
       \/ \E S \in SUBSET Pairs : Do("retain", <<S>>)
       \/ \E S \in SUBSET Pairs : Do("drain_filter", <<S, 99>>)
       \/ Do("drain", <<99>>)
       \/ Do("clear", <<>>)
vars == <<hl, hr, d, ev>>
Spec == Init /\ [][Next]_vars
View == <<hl, hr, d>>

NoFailure == [][ev'.ok]_vars
Representation == Represents(d)
NoHistory == NoHiddenState(d)
SameObs == IObs(d, LK, RK) = A!Obs(m, LK, RK)
LegalContents == A!Legal(m)
Refines == [][A!Allowed(m, ev'.op, ev'.a, ev'.r, m')]_vars
=============================================================================
