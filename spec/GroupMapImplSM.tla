--------------------------- MODULE GroupMapImplSM ----------------------------
(***************************************************************************)
(* GroupMap's design refines its specification, for every hash function,   *)
(* as long as insert(l, r) is not called for items already paired with     *)
(* each other (a known finding; Variant "reinsert" shows what happens).    *)
(***************************************************************************)
EXTENDS GroupMapImpl

CONSTANTS NL, NR
VARIABLES d, ev

A == INSTANCE GroupMap

LK == 1..NL
RK == 1..NR
LI == LK \X {0}
RI == RK \X {0}
m == Abs(d)

Renamed(dd) ==
    IF ~Represents(dd) THEN dd
    ELSE [l |-> Canon(dd).l, r |-> Canon(dd).r, ln |-> NL + 1, rn |-> NR + 1]

Do(op, a) ==
    LET o == Run(d, op, a)
    IN  /\ d' = (IF o.ok THEN Renamed(o.d) ELSE d)
        /\ ev' = [op |-> op, a |-> a, r |-> o.r, ok |-> o.ok]

Init == /\ hl \in HashFns(NL) /\ hr \in HashFns(NR)
        /\ d = Start /\ ev = [op |-> "new", a |-> <<>>, r |-> <<>>, ok |-> TRUE]
Next ==
    /\ UNCHANGED <<hl, hr>>
    /\ \/ \E l \in LI, r \in RI :
            /\ Variant = "reinsert" \/ ~IArePaired(d, K(l), K(r))
            /\ Do("insert", <<l, r>>)
       \/ \E l \in LI, r \in RK : Do("insert_left", <<l, r>>)
       \/ \E r \in RI : Do("insert_right", <<r>>)
       \/ \E l \in LI, r \in RI : Do("insert_remove", <<l, r>>)
       \/ \E op \in {"pair", "remove"} : \E l \in LK, r \in RK : Do(op, <<l, r>>)
       \/ \E l \in LK : Do("remove_left", <<l>>)
       \/ \E r \in RK : Do("remove_right", <<r>>)
       \/ \E op \in {"swap_right", "swap_right_remove"} : \E o \in RK, n \in RI : Do(op, <<o, n>>)
       \/ \E S \in SUBSET {KP(p) : p \in IPaired(d)} : Do("retain_paired", <<S>>)
       \/ \E S \in SUBSET {K(y) : y \in IUnpaired(d)} : Do("retain_unpaired", <<S>>)
       \/ Do("clear", <<>>)
vars == <<hl, hr, d, ev>>
Spec == Init /\ [][Next]_vars
View == <<hl, hr, d>>

NoFailure == [][ev'.ok]_vars
Representation == Represents(d)
NoHistory == NoHiddenState(d)
SameObs == IObs(d, LK, RK) = A!Obs(m, LK, RK)
LegalContents == A!Legal(m)
Refines == [][A!Allowed(m, ev'.op, ev'.a, ev'.r, m')]_vars
=============================================================================
